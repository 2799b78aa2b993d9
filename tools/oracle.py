"""kani/oracle.rs as Verus reads it: `//@ text` is text, `//@: clause` behind a line that ends with `{` goes in front of that `{`."""
import re, sys

HEAD = """pub mod oracle {
use crate::prelude::*;
use crate::prelude::nom;
use crate::spec::*;
use crate::enumeration::{BinaryType, PrimitiveType, BinaryArrayType};
"""


def text(path):
    out, opened = [], None
    for l in open(path):
        l = l.rstrip("\n")
        s = l.strip()
        if s.startswith("//@:"):
            out[opened] = re.sub(r"\s*\{$", "", out[opened])
            out.append("  " + s[4:])
            continue
        if opened is not None and out[opened][-1:] != "{":
            out.append("{")
        opened = None
        if s.startswith("//@"):
            out.append("  " + s[3:])
            continue
        m = re.match(r"^(pub )?fn (\w+)\((.*)\) -> (.*) \{$", l)
        if m:
            l = f"pub fn {m[2]}({m[3]}) -> (r: {m[4]}) {{"
        out.append(l)
        if l.endswith("{"):
            opened = len(out) - 1
    return HEAD + "\n".join(out) + "\n}\n"


if __name__ == "__main__":
    sys.stdout.write(text(sys.argv[1]))
