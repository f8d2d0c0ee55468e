#!/bin/bash
# links for 32-bit x86 with the runtime libraries alone (this machine has no start files and no libgcc.a for it)
set -e
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
for l in c.so.6 gcc_s.so.1 m.so.6 pthread.so.0 dl.so.2 rt.so.1 util.so.1; do
    ln -s "/lib32/lib$l" "$d/lib${l%%.*}.so"
done
cat > "$d/start.s" <<'S'
.text
.globl _start
_start:
    xorl %ebp, %ebp
    popl %esi
    movl %esp, %ecx
    andl $-16, %esp
    pushl %eax
    pushl %esp
    pushl %edx
    pushl $0
    pushl $0
    pushl %ecx
    pushl %esi
    pushl $main
    call __libc_start_main
    hlt
.section .note.GNU-stack,"",@progbits
S
clang -m32 -c "$d/start.s" -o "$d/start.o"
clang -m32 -fuse-ld=lld -no-pie -nostartfiles -L"$d" "$d/start.o" "$@"
