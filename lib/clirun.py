"""Runs the command-line tool in process on simulated devices."""
from __future__ import annotations

import contextlib
import logging
import sys
from unittest import mock

from asyncclick.testing import CliRunner

from kasa import Device, Discover


@contextlib.contextmanager
def fresh_logging():
    """The tool configures logging itself, as it does in a process of its own."""
    root = logging.getLogger()
    handlers, level, disabled = root.handlers[:], root.level, logging.root.manager.disable
    root.handlers[:] = []
    root.setLevel(logging.WARNING)
    logging.disable(logging.NOTSET)
    try:
        yield
    finally:
        for h in root.handlers:
            if h not in handlers:
                h.close()
        root.handlers[:] = handlers
        root.setLevel(level)
        logging.disable(disabled)


async def run(args, *, single=None, many=None, connect=None, input=None, env=None):
    """-> result of the tool.  single/connect: coroutine functions giving the device, many: replaces Discover.discover."""
    from kasa.cli.main import cli

    async def nothing(*a, **kw):
        raise AssertionError("not expected to be called")
    with fresh_logging(), mock.patch.object(Discover, "discover_single", single or nothing), \
            mock.patch.object(Discover, "discover", many or nothing), \
            mock.patch.object(Device, "connect", connect or nothing), \
            mock.patch.object(sys, "argv", ["kasa"]):
        return await CliRunner(mix_stderr=False).invoke(cli, args, input=(input or "") + "n\n" * 200, env={
            k: None for k in ("KASA_HOST", "KASA_JSON", "KASA_DEBUG", "KASA_USERNAME", "KASA_PASSWORD", "FORCE_COLOR", "COLUMNS")} | (env or {}))
