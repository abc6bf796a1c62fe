"""Import the third-party modules the code under test pulls in, so that forked runs do
not load them again (the code under test itself is loaded anew by every simulated process)."""
import importlib
import sys


def warm():
    from .procsim import SRC, drop_modules
    import ast
    import os
    names = set()
    for base, _, files in os.walk(SRC):
        for f in files:
            if not f.endswith(".py"):
                continue
            try:
                with open(os.path.join(base, f)) as fh:
                    tree = ast.parse(fh.read())
            except (SyntaxError, UnicodeDecodeError):
                continue
            for n in ast.walk(tree):
                if isinstance(n, ast.Import):
                    names.update(a.name for a in n.names)
                elif isinstance(n, ast.ImportFrom) and n.module and not n.level:
                    names.add(n.module)
    for n in sorted(names):
        if n.partition(".")[0] in ("spex", "spexsrv", "hypercorn"):
            continue
        try:
            importlib.import_module(n)
        except ImportError:
            pass
    for n in ("quart.testing", "quart.formparser", "werkzeug.sansio.multipart", "jinja2.ext", "aiofiles",
              "encodings.idna", "encodings.utf_8", "encodings.latin_1", "lxml.html", "quart.asgi", "quart.templating",
              "jinja2.debug", "asyncio.timeouts", "quart.json.tag", "werkzeug.wsgi", "loguru._better_exceptions"):
        try:
            importlib.import_module(n)
        except ImportError:
            pass
    drop_modules()
    assert not any(k.partition(".")[0] in ("spex", "spexsrv") for k in sys.modules)
