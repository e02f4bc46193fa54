#!/bin/bash
# inbox.sh N CMD...: runs CMD in scratch copies of /verif and /repo that are mounted over the real ones in a namespace of
# its own (with its own processes, network, /dev/shm), so that several can run at once. The copies stay in /tmp/boxN.
n=$1; shift
b=/tmp/box$n
if [ ! -d $b/repo ]; then mkdir -p $b; git clone -q /repo $b/repo; fi
mkdir -p $b/verif
rsync -a --delete --exclude /build --exclude /.git /verif/ $b/verif/ 2>/dev/null || { (cd /verif && tar cf - --exclude=./build --exclude=./.git .) | tar xf - -C $b/verif; }
[ -d $b/verif/build ] || cp -a /verif/build $b/verif/build
git -C $b/repo fetch -q && git -C $b/repo checkout -q -f --detach origin/HEAD
cat > $b/init.sh <<'I'
mount --bind $B/repo /repo && mount --bind $B/verif /verif && mount -t tmpfs none /dev/shm || exit 90
python3 - <<'P'
import socket,fcntl,struct
s=socket.socket(); fcntl.ioctl(s,0x8914,struct.pack("16sh22x",b"lo",1))
P
cd /verif; exec "$@"
I
B=$b exec unshare -Urnmipf --mount-proc bash $b/init.sh "$@"
