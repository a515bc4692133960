"""The compiled harnesses. Each function takes the built tree, returns the path of the program"""
import os,vf
H=os.path.join(vf.VERIF,'harness')
SAN=('-O1','-g','-fsanitize=address,undefined','-fno-sanitize=alignment','-fno-sanitize-recover=undefined','-fno-omit-frame-pointer')
def parser(b):
    return vf.cprogram(b,'parser',os.path.join(H,'parser.c'),flavor='san',flags=SAN,linkflags=('-Wl,--wrap=mmap,--wrap=munmap',))
ALL=[parser]
def faults(b):
    return vf.cprogram(b,'faults',os.path.join(H,'faults.c'),flavor='o1',flags=('-O1','-g','-fno-builtin'),linkflags=('-rdynamic',),extra=('-ldl',))
ALL=[parser,faults]
def preload(b):
    return vf.cprogram(b,'preload',os.path.join(H,'preload.c'),flags=('-O1','-fno-builtin'),lib=False,shared=True)
ALL=[parser,faults,preload]
def links(b):
    return vf.cprogram(b,'links',os.path.join(H,'links.c'),flavor='san',flags=SAN)
ALL=[parser,faults,preload,links]
TSAN=('-O1','-g','-fsanitize=thread')
def sched(b):
    return vf.cprogram(b,'sched',os.path.join(H,'sched.c'),flags=('-O2','-g'),lib=False,linkflags=('-rdynamic',),extra=('-ldl','-lpthread'))
def ops(b):
    return vf.cprogram(b,'ops',os.path.join(H,'ops.c'),flavor='tsan',flags=('-O1','-g','-I'+H),objflags=TSAN,shared=True)
ALL=[parser,faults,preload,links,sched,ops]
