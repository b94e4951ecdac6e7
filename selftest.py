#!/usr/bin/env python3
"""setup_cmd: checks the reference the monitors judge with against Python's hashlib and RFC
vectors.  Needs nothing from /repo and leaves nothing behind."""
import hashlib, os, shutil, subprocess, sys, tempfile

HERE = os.path.dirname(os.path.abspath(__file__))


def main():
    d = tempfile.mkdtemp(prefix="verif-selftest-")
    try:
        exe = os.path.join(d, "reftest")
        subprocess.run(["g++", "-O2", "-std=c++17", "-w", "-I" + os.path.join(HERE, "harness"),
                        os.path.join(HERE, "harness", "reftest.cpp"), "-lgmpxx", "-lgmp", "-o", exe], check=True)
        out = subprocess.run([exe], check=True, stdout=subprocess.PIPE, text=True).stdout
    finally:
        shutil.rmtree(d, ignore_errors=True)
    n = ok = 0
    for line in out.splitlines():
        f = line.split(" ")
        if f[0] == "H":
            m = bytes.fromhex(f[1])
            want = [hashlib.sha512(m).hexdigest(), hashlib.sha384(m).hexdigest(), hashlib.shake_256(m).hexdigest(200),
                    hashlib.shake_128(m).hexdigest(200), hashlib.sha3_256(m).hexdigest(), hashlib.sha3_512(m).hexdigest()]
            for a, b in zip(f[2:], want):
                n += 1
                if a != b:
                    print("reference disagrees with hashlib:", line[:200])
                    return 1
        elif f[0] == "BAD":
            print("reference disagrees with an RFC vector:", line)
            return 1
        elif f[0] == "ok":
            ok += 1
    print("reference self-test: %d digests equal hashlib, %d RFC facts hold" % (n, ok))
    return 0 if n >= 100 and ok >= 10 else 1


if __name__ == "__main__":
    sys.exit(main())
