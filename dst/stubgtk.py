"""A stand-in for Gtk and WebKit: the viewer is closed as soon as it has shown
the page; what it has shown goes to standard output."""
import hashlib
import os
import sys
import urllib.parse
import urllib.request


class Any:
    def __init__(self, *a, **k):
        pass

    def __getattr__(self, name):
        return lambda *a, **k: None


ScrolledWindow = VBox = Window = Any


class WebView(Any):
    def load_string(self, content, mime, enc, base):
        self.shown('index', content)
        d = urllib.request.url2pathname(urllib.parse.urlsplit(base).path)
        for p, ds, fs in os.walk(d):
            ds.sort()
            for x in sorted(fs):
                x = os.path.join(p, x)
                with open(x, 'rb') as f:
                    self.shown(os.path.relpath(x, d), f.read())

    @staticmethod
    def shown(name, b):
        sys.stdout.flush()
        sys.stdout.buffer.write(('%s %d %s\n' % (name, len(b), hashlib.sha1(b).hexdigest())).encode())


def main():
    pass


main_quit = main
