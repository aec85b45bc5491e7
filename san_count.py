#!/usr/bin/env python3
"""san_count.py <report files>: prints how many sanitizer reports concern the library.

A ThreadSanitizer report counts if htrpc is on one of its access stacks (handlers run below
htrpc's frames, so races on handler state do count); a race wholly inside a dependency's
initialisation, on stacks the library is not part of (e.g. two executors of the harness starting
at once in mio's dlsym cache), is not htrpc's. Every AddressSanitizer report counts.
Matching reports are copied to the file named by $SAN_KEEP, the others to $SAN_KEEP.ignored."""
import os, re, sys
kept, ignored = [], []
for path in sys.argv[1:]:
    text = open(path, errors="replace").read()
    for part in re.split(r"(?m)^={10,}\n(?=WARNING: ThreadSanitizer|.*ERROR: AddressSanitizer)", text):
        if "ERROR: AddressSanitizer" in part:
            kept.append(part)
        elif "WARNING: ThreadSanitizer" in part:
            head = re.split(r"(?m)^\s+(?:Thread T\d+ |Location is |As if synchronized)|^SUMMARY", part)[0]
            (kept if re.search(r"\bhtrpc::|/repo/src/", head) else ignored).append(part)
keep = os.environ.get("SAN_KEEP")
if keep:
    for name, parts in ((keep, kept), (keep + ".ignored", ignored)):
        if parts:
            with open(name, "a") as f:
                f.write("\n==================\n".join(parts)[:400000])
print(len(kept))
