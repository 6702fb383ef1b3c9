#!/usr/bin/env python3
"""Compare the reference arithmetic of the harness with Python's integers.
usage: selftest.py BINARY"""
import subprocess, sys
P1, P2 = (1 << 61) - 1, (1 << 64) - 59
out = subprocess.run([sys.argv[1], "selftest"], capture_output=True, text=True, check=True).stdout
n = 0
def val(s, b):
    v = 0
    if s:
        for d in reversed(s.split(",")):
            assert 0 <= int(d) < b
            v = v * b + int(d)
        assert s.split(",")[-1] != "0"
    return v
sys.set_int_max_str_digits(0)
for line in out.splitlines():
    f = line.split(" ")
    b = int(f[0]); x, y = val(f[1], b), val(f[2], b)
    k = int(f[8])
    assert int(f[3]) == x and int(f[4], 16) == y
    assert int(f[5]) == x + y
    assert f[6] == (str(x - y) if x >= y else "-")
    assert int(f[7]) == x * y
    assert int(f[9]) == x << k and int(f[10]) == x >> k
    assert (int(f[11]), int(f[12])) == (divmod(x, y) if y else (0, 0))
    assert val(f[13], b) == x + y
    assert f[14] == "-" if x < y else val(f[14], b) == x - y
    assert val(f[15], b) == x * y
    assert tuple(map(int, f[16].split(","))) == (x * y % P1, x * y % P2)
    assert f[17] == str(x) and int(f[18]) == y and int(f[19]) == x and f[20] == "true"
    assert int(f[21]) == x.bit_length()
    n += 1
assert n == 600
print(f"reference arithmetic agrees with Python on {n} cases")
