"""Minimal reader for the native reservoir source: methods, parameters, member assignments, exposed properties."""
import os
import re
from .project import AnchorError


class Cpp:
    def __init__(self, path):
        if not os.path.exists(path):
            raise AnchorError(f"{path} not found")
        self.rel = os.path.relpath(path, os.path.dirname(os.path.dirname(os.path.dirname(path))))
        with open(path, encoding="utf-8") as f:
            s = f.read()
        s = re.sub(r"/\*.*?\*/", " ", s, flags=re.S)
        s = re.sub(r"//[^\n]*", " ", s)
        self.src = s

    def _method(self, name):
        for m in re.finditer(r"\b" + re.escape(name) + r"\s*\(", self.src):
            i = m.end() - 1
            j = self._match(i, "(", ")")
            k = re.match(r"\s*(const)?\s*\{", self.src[j + 1:])
            if k:
                b = j + 1 + k.end() - 1
                return self.src[i + 1:j], self.src[b + 1:self._match(b, "{", "}")]
        raise AnchorError(f"native method {name}")

    def _match(self, i, o, c):
        d = 0
        for k in range(i, len(self.src)):
            if self.src[k] == o:
                d += 1
            elif self.src[k] == c:
                d -= 1
                if d == 0:
                    return k
        raise AnchorError("unbalanced native source")

    def body(self, name):
        return " ".join(self._method(name)[1].split())

    def params(self, name):
        ps, _ = self._method(name)
        out, d, cur = [], 0, ""
        for ch in ps + ",":
            if ch in "<(":
                d += 1
            if ch in ">)":
                d -= 1
            if ch == "," and d == 0:
                w = re.findall(r"\w+", cur)
                if w:
                    out.append(w[-1])
                cur = ""
            else:
                cur += ch
        return out

    def member_from_param(self, name):
        """member -> parameter whose value it receives, directly or through one local"""
        ps = self.params(name)
        b = self.body(name)
        loc = {}
        for m in re.finditer(r"\b(\w+)\s*=\s*(\w+)\s*\.\s*unchecked", b):
            loc[m.group(1)] = m.group(2)
        out = {}
        for m in re.finditer(r"\b(\w+_)\s*=\s*(?:std::move\()?(\w+)\)?\s*;", b):
            if m.group(2) in ps:
                out[m.group(1)] = m.group(2)
        for m in re.finditer(r"\b(\w+_)\s*\.\s*(?:assign|push_back)\s*\(([^;]*)\)\s*;", b):
            for w in re.findall(r"\w+", m.group(2)):
                w = loc.get(w, w)
                if w in ps:
                    out[m.group(1)] = w
        return out

    def property_member(self):
        """exposed python name -> member it returns"""
        out = {}
        for m in re.finditer(r"def(?:_property_readonly)?\(\s*\"(\w+)\"\s*,\s*&\w+::(\w+)\s*\)", self.src):
            try:
                b = self.body(m.group(2))
            except AnchorError:
                continue
            k = re.fullmatch(r"return (\w+_)(?:\.size\(\))?;", b)
            if k:
                out[m.group(1)] = k.group(1)
            elif m.group(2) == "slots":
                w = set(re.findall(r"\b(\w+_)\b", b))
                if len(w) == 1:
                    out[m.group(1)] = w.pop()
        return out

    def members(self):
        return sorted(set(re.findall(r"^\s*(?:std::)?[\w:<>]+\s+(\w+_)\s*(?:=[^;]*)?;", self.src, flags=re.M)))
