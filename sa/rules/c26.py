"""Failures of input and proof files, by abstract interpretation of the command line tool's main.

Opening files, parsing the header and each clause can fail in every abstract state.  Solving may only
start when nothing failed, when a header was read and when every clause that the parser returned was
given to the solver, with the proof started before if and only if it was requested, in the requested
format and to the requested file.  A path that ends without solving prints no verdict and ends with an
error status.  Files are opened for writing only if they are newly created, and main has no other
effect on the file system (query over all calls of the tool)."""
from .common import *
from . import cli, scan

RULE = "order and outcomes of file, parser and solver operations on every abstract path of main"
ASSUMES = ["the parser accepts exactly the well-formed formulas (flussab)",
           "errors of main become a non-zero status (standard library)"]

FS_OK = ("std::fs::File::open", "std::fs::File::options", "std::fs::File::create_new",
         "std::fs::OpenOptions::", "std::fs::metadata", "std::fs::canonicalize",
         "std::fs::File::metadata", "std::fs::File::try_clone", "std::fs::exists",
         "std::fs::File::sync_all", "std::fs::File::sync_data", "std::fs::FileType",
         "std::fs::Metadata")


def run(cx):
    e, mon = cli.run(cx, "c26")
    n = 0
    for c in (cx.cli, cx.lib):
        for k, b in scan.bodies(c):
            for rec, term, span, blk in scan.calls(b):
                p = scan.callee(rec)
                if p and "std::fs::" in p and not p.startswith("<"):
                    n += 1
                    ok = p.startswith(FS_OK) and (c is cx.cli)
                    cx.ob(ok, "c26:files", "%s is called (in %s)" % (p, b.path),
                          "%s at %s" % (b.path, scan.line(span)))
    cx.ob(n > 0, "c26:opens", "the tool opens no files", cli.MAIN)
    cx.ob(mon.finals > 0, "c26:ends", "main never ends", cli.MAIN)
