# Helpers for demonstrations: everything happens below a scratch directory.
HERE=$(cd "$(dirname "$0")" && pwd)
ART=$PWD/target/debug/artefacta
T=$(mktemp -d) || exit 99
SRVPID=
cleanup() { [ -n "$SRVPID" ] && kill "$SRVPID" 2>/dev/null; chmod -R u+rwX "$T" 2>/dev/null; rm -rf "$T"; }
trap cleanup EXIT
mkdir "$T/l" "$T/r" "$T/x"
L=$T/l R=$T/r
export RUST_LOG=off
unset ARTEFACTA_LOCAL_STORE ARTEFACTA_REMOTE_STORE ARTEFACTA_COMPRESSION_LEVEL
art() { "$ART" --local "$L" --remote "$R" "$@" >"$T/out" 2>&1; }
no() { echo "DEMO: $*"; tail -20 "$T/out" 2>/dev/null; exit 1; }
broken() { echo "DEMO setup: $*"; tail -20 "$T/out" 2>/dev/null; exit 98; }
# content KEY SIZE: always the same bytes for a key
content() { python3 -c 'import random,sys; sys.stdout.buffer.write(random.Random(sys.argv[1]).randbytes(int(sys.argv[2])))' "$1" "$2"; }
# build DIR VERSION FILE: a build file with this content
build() { zstd -q -f -19 "$3" -o "$1/$2.tar.zst" || exit 97; }
# like BASE KEY: the same content with a few bytes changed
like() { python3 -c '
import random,sys
d=bytearray(open(sys.argv[1],"rb").read()); r=random.Random(sys.argv[2]); d[500:520]=r.randbytes(20)
sys.stdout.buffer.write(bytes(d))' "$1" "$2"; }
same() { zstd -q -dc < "$1" | cmp -s - "$2"; }
# s3 [FAULT...]: starts a server; REMOTE is bucket "b" with the objects of $T/r below path $S3PATH
s3() {
    mkdir -p "$T/s3"
    (cd "$T/s3" && openssl req -x509 -newkey rsa:2048 -nodes -keyout ca.key -out ca.pem -days 30 -subj /CN=demo-ca \
        -addext basicConstraints=critical,CA:TRUE -addext keyUsage=keyCertSign &&
     openssl req -newkey rsa:2048 -nodes -keyout leaf.key -out leaf.csr -subj /CN=localhost &&
     printf 'subjectAltName=DNS:localhost,DNS:*.localhost\nbasicConstraints=CA:FALSE\nextendedKeyUsage=serverAuth\n' > ext &&
     openssl x509 -req -in leaf.csr -CA ca.pem -CAkey ca.key -CAcreateserial -days 30 -out leaf.crt -extfile ext &&
     cat leaf.key leaf.crt > leaf.pem) >/dev/null 2>&1 || broken openssl
    python3 "$HERE/s3.py" "$T/s3" "$@" >"$T/s3/log" 2>&1 &
    SRVPID=$!
    for i in $(seq 100); do [ -e "$T/s3/ready" ] && break; sleep 0.1; done
    [ -e "$T/s3/ready" ] || { cat "$T/s3/log"; broken "no server"; }
    export SSL_CERT_FILE=$T/s3/ca.pem AWS_ACCESS_KEY_ID=a AWS_SECRET_ACCESS_KEY=b
    mkdir -p "$T/s3/o"
    R=s3://b.localhost
}
# die: DIE="FUNCTION:PATTERN:N[:before|after]" kills the process at the Nth call on such a path
die() { [ -e "$T/die.so" ] || gcc -shared -fPIC -O1 -o "$T/die.so" "$HERE/die.c" -ldl || broken gcc; DIE=$1 LD_PRELOAD=$T/die.so "${@:2}"; }
