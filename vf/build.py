"""Build what the checks need: the binary of /repo's working tree, the shim, the certificates."""
import hashlib, os, subprocess, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WORK = os.path.join(VERIF, "work")
REPO = os.environ.get("VF_REPO", "/repo")


class ToolError(Exception):
    pass


class Hung(Exception):
    """a command which does not end"""


def cargo_env():
    e = dict(os.environ)
    for k in ("RUST_LOG", "ARTEFACTA_COMPRESSION_LEVEL", "ARTEFACTA_LOCAL_STORE", "ARTEFACTA_REMOTE_STORE", "RUSTFLAGS"):
        e.pop(k, None)
    e.update(
        HOME="/root", PATH="/root/.cargo/bin:" + e.get("PATH", "/usr/bin:/bin"),
        RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true", RUSTC_WRAPPER="",
        CARGO_INCREMENTAL="1", CARGO_PROFILE_DEV_DEBUG="line-tables-only", CARGO_TERM_COLOR="never",
    )
    return e


def binary():
    r = subprocess.run(["cargo", "build", "--offline", "--locked", "--bin", "artefacta"], cwd=REPO, env=cargo_env(),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise ToolError("cargo build failed:\n" + r.stdout[-3000:])
    target = os.environ.get("CARGO_TARGET_DIR", os.path.join(REPO, "target"))
    b = os.path.join(target, "debug", "artefacta")
    if not os.path.exists(b):
        raise ToolError("no binary at " + b)
    return b


def shim():
    os.makedirs(WORK, exist_ok=True)
    src = os.path.join(VERIF, "shim", "shim.c")
    tag = hashlib.sha256(open(src, "rb").read()).hexdigest()[:12]
    out = os.path.join(WORK, "shim-%s.so" % tag)
    if not os.path.exists(out):
        tmp = out + ".%d" % os.getpid()
        r = subprocess.run(["gcc", "-O1", "-shared", "-fPIC", "-fvisibility=hidden", "-fno-delete-null-pointer-checks",
                            "-w", "-o", tmp, src, "-ldl", "-lpthread"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            raise ToolError("shim: " + r.stdout)
        os.rename(tmp, out)
    return out


def certs():
    """(CA file, server key + certificate file) for *.localhost"""
    d = os.path.join(WORK, "certs")
    ca, leaf = os.path.join(d, "ca.pem"), os.path.join(d, "leaf.pem")
    if os.path.exists(leaf):
        return ca, leaf
    os.makedirs(d, exist_ok=True)
    t = os.path.join(d, "tmp%d" % os.getpid())
    os.makedirs(t, exist_ok=True)

    def run(*a):
        r = subprocess.run(a, cwd=t, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            raise ToolError("openssl: " + r.stdout)

    ec = ["-newkey", "ec", "-pkeyopt", "ec_paramgen_curve:prime256v1", "-nodes"]
    run("openssl", "req", "-x509", *ec, "-keyout", "ca.key", "-out", "ca.pem", "-days", "7300", "-subj", "/CN=vf test ca",
        "-addext", "basicConstraints=critical,CA:TRUE", "-addext", "keyUsage=keyCertSign")
    run("openssl", "req", *ec, "-keyout", "leaf.key", "-out", "leaf.csr", "-subj", "/CN=localhost")
    open(os.path.join(t, "ext"), "w").write(
        "subjectAltName=DNS:localhost,DNS:*.localhost\nbasicConstraints=CA:FALSE\nextendedKeyUsage=serverAuth\n")
    run("openssl", "x509", "-req", "-in", "leaf.csr", "-CA", "ca.pem", "-CAkey", "ca.key", "-CAcreateserial", "-days", "7300",
        "-out", "leaf.crt", "-extfile", "ext")
    with open(os.path.join(t, "leaf.pem"), "w") as f:
        f.write(open(os.path.join(t, "leaf.key")).read() + open(os.path.join(t, "leaf.crt")).read())
    os.rename(os.path.join(t, "ca.pem"), ca)
    os.rename(os.path.join(t, "leaf.pem"), leaf)
    return ca, leaf


if __name__ == "__main__":
    try:
        print(binary(), shim(), *certs())
    except ToolError as e:
        print(e, file=sys.stderr)
        sys.exit(2)
