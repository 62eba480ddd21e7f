#!/usr/bin/env python3
"""Stands in for `cbmc` when Kani calls it (see check.py: kani_home).

Kani reads CBMC's JSON as it comes and ignores CBMC's exit status; CBMC's JSON carries a trace of every failed
property, and a trace over a large symbolic object can exhaust memory after the proof is done: Kani would then report
success on the part of the results that was printed.  So: CBMC runs with its plain output (no traces), its exit status
is checked, and its complete table of results is handed to Kani as JSON.  With anything unexpected nothing is handed
over, and Kani reports the harness as not decided.  VERIF_TRACES=1 (concrete playback) passes everything through."""
import ctypes, json, os, re, resource, signal, subprocess, sys, tempfile

REAL = os.environ["VERIF_CBMC"]
LIMIT = int(os.environ.get("VERIF_CBMC_MEM_GB", "14")) << 30


def child():
    ctypes.CDLL(None).prctl(1, signal.SIGKILL)          # dies with this process
    resource.setrlimit(resource.RLIMIT_AS, (LIMIT, LIMIT))


def parse(text):
    """-> list of (name, file, function, line, description, status); raises on anything unexpected"""
    body = text[text.index("\n** Results:\n") + len("\n** Results:\n"):]
    end = re.search(r"(?m)^\*\* (\d+) of (\d+) failed", body)
    total, failed = int(end.group(2)), int(end.group(1))
    res, file, function, cur = [], None, None, None
    for line in body[:end.start()].split("\n"):
        if cur is None:
            m = re.match(r"\[(\S.*?\.\d+)\] (?:line (\d+) )?(.*)$", line)
            if m and re.search(r"\.[A-Za-z_-]+\.\d+$|^[^ ]+\.\d+$", m.group(1)):
                cur = [m.group(1), m.group(2), m.group(3)]
            elif line.strip():
                m = re.match(r"(?:(.*) )?function (.*)$", line)
                file, function = (m.group(1), m.group(2)) if m else (line, None)
                continue
            else:
                continue
        else:                                           # a description that spans lines
            cur[2] += "\n" + line
        m = re.match(r"(?s)(.*): (SUCCESS|FAILURE|UNKNOWN|ERROR)$", cur[2])
        if m:
            res.append((cur[0], file, function, cur[1], m.group(1), m.group(2)))
            cur = None
    assert cur is None and len(res) == total and sum(r[5] == "FAILURE" for r in res) == failed, \
        (cur, len(res), total, failed)
    return res


def main():
    args = sys.argv[1:]
    if "--json-ui" not in args or os.environ.get("VERIF_TRACES"):
        os.execv(REAL, [REAL] + args)
    args.remove("--json-ui")
    with tempfile.TemporaryFile() as f:
        p = subprocess.run([REAL] + args, stdout=f, stderr=subprocess.STDOUT, preexec_fn=child)
        f.seek(0)
        text = f.read().decode(errors="replace")
    out = [{"program": (re.search(r"(?m)^CBMC version.*$", text) or re.search("", "")).group(0).replace("CBMC version ", "CBMC ")}]
    head = text.split("\n** Results:\n")[0]
    if p.returncode not in (0, 10):
        sys.stderr.write(text[-2000:])
        print(json.dumps(out + [{"messageText": f"cbmc ended with {p.returncode}", "messageType": "ERROR"}], indent=2))
        return p.returncode or 1
    try:
        res = parse(text)
    except Exception as e:
        sys.stderr.write(f"cannot read CBMC's results: {e!r}\n")
        print(json.dumps(out + [{"messageText": "cannot read CBMC's results", "messageType": "ERROR"}], indent=2))
        return 6
    for line in head.split("\n"):
        if re.match(r"Runtime|size of program|slicing removed|Generated \d+ VCC|\d+ variables", line):
            out.append({"messageText": line, "messageType": "STATUS-MESSAGE"})
    items = []
    for name, file, function, line, desc, status in res:
        loc = {k: v for k, v in (("file", file), ("function", function), ("line", line)) if v}
        items.append({"description": desc, "property": name, "sourceLocation": loc, "status": status})
    out.append({"result": items})
    out.append({"messageText": "VERIFICATION " + ("FAILED" if p.returncode else "SUCCESSFUL"), "messageType": "STATUS-MESSAGE"})
    out.append({"cProverStatus": "failure" if p.returncode else "success"})
    print(json.dumps(out, indent=2))
    return p.returncode


sys.exit(main())
