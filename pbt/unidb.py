"""The Unicode database used by the checks: the system ICU through picu, as the tool itself uses it."""
import glob
import re

_db = None


def get_unidb():
    global _db
    if _db is None:
        from munidata.manager import UnicodeDataVersionManager
        libs = sorted(glob.glob('/usr/lib/x86_64-linux-gnu/libicuuc.so.[0-9]*'), key=len)
        m = re.search(r'\.so\.([0-9]+)$', libs[0])
        uc = libs[0]
        i18n = uc.replace('libicuuc', 'libicui18n')
        _db = UnicodeDataVersionManager().register(None, uc, i18n, m.group(1))
    return _db
