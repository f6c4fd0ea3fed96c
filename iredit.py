#!/usr/bin/env python3
"""Edit the whole-program IR before optimisation: drop the bodies of the panic machinery (the engine
treats a call as the end of the path) and keep a few functions out of line so the engine can see them."""
import re, sys
STRIP = re.compile(r'(4core9panicking|3std9panicking11begin_panic|18handle_alloc_error|17capacity_overflow|'
                   r'12handle_error|7process5abort|14abort_internal|4core6option13unwrap_failed|4core6option13expect_failed|'
                   r'4core6result13unwrap_failed|19hashmap_random_keys|slice_(index|start|end)\w*fail|'
                   r'5slice5index16slice_index_fail|9copy_from_slice.*len_mismatch|3str16slice_error_fail)')
NOTSTRIP = re.compile(r'drop_glue|hash_one')
NOINLINE = re.compile(r'8hash_one')
ARGS = re.compile(r'@\w*15ARGV_INIT_ARRAY12init_wrapper')
# inline assembly: a raw system call fails with ENOTTY (only the "is it a terminal" test of the error printer makes one), cpuid reports nothing
SYSCALL = re.compile(r'(?:tail )?call \{ (?:ptr|i64), i(32|64), i\1 \} asm sideeffect (?:alignstack )?inteldialect "syscall".*')
CPUID = re.compile(r'(?:tail )?call \{ i32, i32, i32, i32 \} asm sideeffect (?:alignstack )?inteldialect "mov \$\{0:q\}, rbx.*')
src, dst = sys.argv[1:3]
out = []
skip = False
stripped = []
with open(src) as f:
    for line in f:
        if skip:
            if line.startswith('}'):
                skip = False
            continue
        # the standard library's own start-up code for the arguments, under a name a harness can call
        line = ARGS.sub('@rt_args_init', line)
        if line.startswith('declare ') and '@rt_args_init(' in line:
            continue
        if ' asm sideeffect' in line:
            line = SYSCALL.sub(lambda m: 'insertvalue { ptr, i%s, i%s } zeroinitializer, ptr inttoptr (i64 -25 to ptr), 0' % (m.group(1), m.group(1)) if '{ ptr' in m.group(0) else 'insertvalue { i64, i%s, i%s } zeroinitializer, i64 -25, 0' % (m.group(1), m.group(1)), line)
            line = CPUID.sub('insertvalue { i32, i32, i32, i32 } zeroinitializer, i32 0, 0', line)
        if line.startswith('define '):
            m = re.search(r'@("[^"]*"|[\w.$]+)\(', line)
            name = m.group(1)
            if STRIP.search(name) and not NOTSTRIP.search(name):
                l = line.rstrip()
                assert l.endswith('{')
                l = l[:-1]
                l = re.sub(r'^define (internal |hidden |private |linkonce_odr |weak_odr |dso_local |noundef )*', 'declare ', l)
                l = re.sub(r'!\w+ !\d+', '', l)
                l = re.sub(r'personality ptr @\w+', '', l)
                l = re.sub(r'comdat(\(.*?\))?', '', l)
                out.append(l + '\n')
                stripped.append(name)
                skip = True
                continue
            if NOINLINE.search(name):
                line = re.sub(r'(\) unnamed_addr |\) local_unnamed_addr |\) )(#\d+)', r'\1noinline \2', line, count=1)
        out.append(line)
with open(dst, 'w') as f:
    f.writelines(out)
print('stripped', len(stripped), file=sys.stderr)
