"""The command line: the real argparse, with option values that may be symbolic.

cx.st['argv'] is the command line; cx.st['argv_values'] maps place holders in it to the (symbolic) texts they stand
for, which are put in after parsing: argparse hands over option values unchanged."""
import argparse as _argparse
from sx import rt


def value(v):
    m = rt.cx.st.get("argv_values", {})
    if isinstance(v, str) and v in m:
        return m[v]
    return v


class ArgumentParser(_argparse.ArgumentParser):
    def parse_args(self, args=None, namespace=None):
        ns = _argparse.ArgumentParser.parse_args(self, args, namespace)
        for k in sorted(vars(ns)):
            setattr(ns, k, value(getattr(ns, k)))
        return ns

    def _print_message(self, message, file=None):
        if message:
            cx = rt.cx
            cx.st.setdefault("usage", []).append(message)

    def exit(self, status=0, message=None):
        if message:
            self._print_message(message)
        raise SystemExit(status)

    def error(self, message):
        self.exit(2, message)


def argv():
    cx = rt.cx
    return cx.st.get("argv", ["dataplicity"]) if cx is not None else ["dataplicity"]


def install(reg, w):
    reg("argparse", {"ArgumentParser": ArgumentParser}, _argparse,
        ("SUPPRESS", "Namespace", "Action", "HelpFormatter", "RawDescriptionHelpFormatter"))
