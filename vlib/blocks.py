"""Output of the harnesses: "BLOCK <n> <label> <size>\n<data>\n" ... then the rest."""
import re


def blocks(data):
    pos = 0
    out = []
    while True:
        j = data.find("\n", pos)
        line = data[pos:j] if j >= 0 else data[pos:]
        m = re.match(r"BLOCK (\d+) (\S+) (\d+)$", line)
        if not m:
            return out, data[pos:]
        n = int(m.group(3))
        out.append((int(m.group(1)), m.group(2), data[j + 1:j + 1 + n]))
        pos = j + 1 + n + 1
