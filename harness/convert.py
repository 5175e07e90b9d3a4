"""convert.py SRC DST: Python 3 copy (lib2to3) of the Python 2 sources"""
import hashlib, os, sys, warnings
warnings.simplefilter('ignore')
from lib2to3.refactor import RefactoringTool, get_fixers_from_package
SRC, DST = sys.argv[1:]
tool = None
for sub in ('maputils', 'utils'):
    for f in sorted(os.listdir(os.path.join(SRC, sub))):
        if not f.endswith('.py'):
            continue
        src, dst = os.path.join(SRC, sub, f), os.path.join(DST, sub, f)
        raw = open(src, 'rb').read()
        digest = hashlib.sha256(raw).hexdigest()
        if os.path.exists(dst) and os.path.exists(dst + '.sha') and open(dst + '.sha').read() == digest:
            continue
        if tool is None:
            tool = RefactoringTool(get_fixers_from_package('lib2to3.fixes'))
        try:
            text = raw.decode('utf-8')
        except UnicodeDecodeError:
            text = raw.decode('latin-1')
        text = text.replace('\r\n', '\n')
        if text and not text.endswith('\n'):
            text += '\n'
        out = str(tool.refactor_string(text, src))
        os.makedirs(os.path.dirname(dst), exist_ok=True)
        open(dst, 'w', encoding='utf-8').write(out)
        open(dst + '.sha', 'w').write(digest)
