"""Independent reader of a wheel archive (raw zip order, attributes, RECORD, WHEEL)."""
from __future__ import annotations

import base64
import csv
import hashlib
import io
import zipfile

from .elfread import NotElf, read_elf


class Wheel:
    def __init__(self, path):
        self.path = path
        self.filename = str(path).rsplit("/", 1)[-1]
        with open(path, "rb") as f:
            self.raw = f.read()
        self.sha = hashlib.sha256(self.raw).hexdigest()
        with zipfile.ZipFile(io.BytesIO(self.raw)) as z:
            self.testzip = z.testzip()
            self.infos = z.infolist()
            self.data = {}
            self.mode = {}
            self.dirs = []
            self.dups = []
            for zi in self.infos:
                n = zi.filename
                if n.endswith("/"):
                    self.dirs.append(n)
                    continue
                if n in self.data:
                    self.dups.append(n)
                self.data[n] = z.read(zi)
                self.mode[n] = (zi.external_attr >> 16) & 0o7777
        self.order = [zi.filename for zi in self.infos]
        tops = sorted({n.split("/")[0] for n in self.data if "/" in n
                       and n.split("/")[0].endswith(".dist-info")})
        self.distinfos = tops
        self.distinfo = tops[0] if tops else None
        self._elf = {}

    def text(self, name):
        return self.data[name].decode("utf-8")

    @property
    def record_name(self):
        return f"{self.distinfo}/RECORD"

    def record_rows(self):
        return list(csv.reader(io.StringIO(self.text(self.record_name), newline="")))

    def wheel_headers(self):
        out = []
        for line in self.text(f"{self.distinfo}/WHEEL").splitlines():
            if not line.strip():
                break
            k, _, v = line.partition(":")
            out.append((k.strip(), v.strip()))
        return out

    def header_all(self, key):
        return [v for k, v in self.wheel_headers() if k == key]

    @property
    def name_tags(self):
        stem = self.filename[:-4]
        p = stem.split("-")
        return p[-3].split("."), p[-2].split("."), p[-1].split(".")

    @property
    def plats(self):
        return self.name_tags[2]

    def elf(self, name):
        if name not in self._elf:
            try:
                self._elf[name] = read_elf(self.data[name])
            except NotElf:
                self._elf[name] = None
        return self._elf[name]

    def elfs(self):
        return {n: self.elf(n) for n in self.data if self.elf(n) is not None}


def record_hash(data):
    return "sha256=" + base64.urlsafe_b64encode(hashlib.sha256(data).digest()).rstrip(b"=").decode()


def installed(wheel):
    """installed path -> archive name, the way an installer lays files out.
    'site/...' is platlib (= purelib), 'bin/...' scripts."""
    out = {}
    for n in wheel.data:
        top, _, rest = n.partition("/")
        if top.endswith(".data") and rest:
            kind, _, sub = rest.partition("/")
            if kind in ("platlib", "purelib"):
                out[f"site/{sub}"] = n
            elif kind == "scripts":
                out[f"bin/{sub}"] = n
            else:
                out[f"data/{kind}/{sub}"] = n
        else:
            out[f"site/{n}"] = n
    return out
