"""Reads the real sources of /repo and resolves names in them."""
import ast
import os

REPO = os.environ.get('PYVC_REPO', '/repo')


class ModInfo:
    def __init__(self, repo, path):
        self.repo, self.path = repo, path
        with open(os.path.join(repo.root, path), encoding='utf-8') as f:
            self.src = f.read()
        self.tree = ast.parse(self.src)
        self.defs = {}
        for n in ast.walk(self.tree):
            for c in ast.iter_child_nodes(n):
                c._parent = n
        self._scan(self.tree.body)

    def _scan(self, body):
        for n in body:
            if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                self.defs[n.name] = n
            elif isinstance(n, ast.Import):
                for a in n.names:
                    self.defs[a.asname or a.name.split('.')[0]] = ('module', a.name if a.asname else a.name.split('.')[0])
            elif isinstance(n, ast.ImportFrom):
                mod = n.module or ''
                if n.level:
                    base = os.path.dirname(self.path).replace('/', '.')
                    mod = base + ('.' + mod if mod else '')
                for a in n.names:
                    if a.name == '*':
                        mp = self.repo.modpath(mod)
                        if mp and mp != self.path:
                            for nm in self.repo.mod(mp).defs:
                                if not nm.startswith('_'): self.defs[nm] = ('from', mod, nm)
                        continue
                    self.defs[a.asname or a.name] = ('from', mod, a.name)
            elif isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        self.defs[t.id] = ('expr', n.value)
            elif isinstance(n, (ast.If, ast.Try)):
                self._scan(n.body)


class Repo:
    def __init__(self, root=REPO):
        self.root = root
        self.mods = {}

    def mod(self, path):
        if path not in self.mods:
            self.mods[path] = ModInfo(self, path)
        return self.mods[path]

    def modpath(self, dotted):
        p = dotted.replace('.', '/')
        for c in (p + '.py', p + '/__init__.py'):
            if os.path.exists(os.path.join(self.root, c)):
                return c
        return None

    def find(self, spec):
        """'path::Class.func' -> (ModInfo, [class nodes], node) or None."""
        path, qual = spec.split('::')
        try:
            m = self.mod(path)
        except (OSError, SyntaxError):
            return None
        node, classes, cur = None, [], m.defs
        parts = qual.split('.')
        for i, part in enumerate(parts):
            node = cur.get(part) if isinstance(cur, dict) else None
            if not isinstance(node, (ast.FunctionDef, ast.ClassDef)):
                return None
            if i < len(parts) - 1:
                classes.append(node)
                cur = {c.name: c for c in ast.walk(node)
                       if isinstance(c, (ast.FunctionDef, ast.ClassDef)) and c is not node
                       and c in node.body}
        return m, classes, node
