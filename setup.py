"""setup_cmd: check that the tools the machinery needs are present and compile the python modules."""
import compileall, os, shutil, sys
H = os.path.dirname(os.path.abspath(__file__))
for t in ('clang', 'clang++', 'llvm-link-18', 'gcc', 'g++', 'cbmc', 'goto-cc'):
    if not shutil.which(t):
        sys.exit('missing tool ' + t)
import z3   # noqa
compileall.compile_dir(os.path.join(H, 'vfe'), quiet=1)
os.makedirs(os.path.join(H, 'evidence'), exist_ok=True)
print('setup ok')
