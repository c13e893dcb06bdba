"""Labels that the general rules are tried on, by language or script (as the reference LGRs give them)."""

COMBINING_MARK_LABELS = {
    'Beng': [[0x09C1, 0x09AE, 0x09AE]],
    'Deva': [[0x0948, 0x092C, 0x092C]],
    'Gujr': [[0x0ABC, 0x0AAC]],
    'Guru': [[0x0A02, 0x0A20]],
    'Khmr': [[0x17B7, 0x178A]],
    'Knda': [[0x0C83, 0x0C96]],
    'Laoo': [[0x0EB4, 0x0E9D, 0x0E9D]],
    'Mlym': [[0x0D02, 0x0D1C]],
    'Mymr': [[0x1032, 0x1005]],
    'Orya': [[0x0B03, 0x0B15]],
    'Sinh': [[0x0D82, 0x0DA8]],
    'Taml': [[0x0BBE, 0x0B9A]],
    'Telu': [[0x0C03, 0x0C16]],
    'Thaa': [[0x07A6, 0x0786]],
    'Thai': [[0x0E37, 0x0E01]],
    'Tibt': [[0x0F80, 0x0F40]],
}

CONSECUTIVE_HYPHEN_LABELS = {
    'Arab': [[0x002D, 0x062A, 0x062A], [0x062A, 0x062A, 0x002D], [0x062A, 0x062A, 0x002D, 0x002D, 0x062A, 0x062A]],
    'Armn': [[0x002D, 0x0561, 0x0561], [0x0561, 0x0561, 0x002D], [0x0561, 0x0561, 0x002D, 0x002D, 0x0561, 0x0561]],
    'Beng': [[0x002D, 0x09AE, 0x09AE], [0x09AE, 0x09AE, 0x002D], [0x09AE, 0x09AE, 0x002D, 0x002D, 0x09AE, 0x09AE]],
    'Cyrl': [[0x002D, 0x0434, 0x0434], [0x0434, 0x0434, 0x002D], [0x0434, 0x0434, 0x002D, 0x002D, 0x0434, 0x0434]],
    'Deva': [[0x002D, 0x092C, 0x092C], [0x092C, 0x092C, 0x002D], [0x092C, 0x092C, 0x002D, 0x002D, 0x092C, 0x092C]],
    'Ethi': [[0x002D, 0x1228, 0x1228], [0x1228, 0x1228, 0x002D], [0x1228, 0x1228, 0x002D, 0x002D, 0x1228, 0x1228]],
    'Geor': [[0x002D, 0x10D1, 0x10D1], [0x10D1, 0x10D1, 0x002D], [0x10D1, 0x10D1, 0x002D, 0x002D, 0x10D1, 0x10D1]],
    'Grek': [[0x002D, 0x03C0, 0x03C0], [0x03C0, 0x03C0, 0x002D], [0x03C0, 0x03C0, 0x002D, 0x002D, 0x03C0, 0x03C0]],
    'Gujr': [[0x002D, 0x0AAC, 0x0AAC], [0x0AAC, 0x0AAC, 0x002D], [0x0AAC, 0x0AAC, 0x002D, 0x002D, 0x0AAC, 0x0AAC]],
    'Guru': [[0x002D, 0x0A20, 0x0A20], [0x0A20, 0x0A20, 0x002D], [0x0A20, 0x0A20, 0x002D, 0x002D, 0x0A20, 0x0A20]],
    'Hebr': [[0x002D, 0x05D1, 0x05D1], [0x05D1, 0x05D1, 0x002D], [0x05D1, 0x05D1, 0x002D, 0x002D, 0x05D1, 0x05D1]],
    'Khmr': [[0x002D, 0x178A, 0x178A], [0x178A, 0x178A, 0x002D], [0x178A, 0x178A, 0x002D, 0x002D, 0x178A, 0x178A]],
    'Knda': [[0x002D, 0x0C95, 0x0C95], [0x0C95, 0x0C95, 0x002D], [0x0C95, 0x0C95, 0x002D, 0x002D, 0x0C95, 0x0C95]],
    'Laoo': [[0x002D, 0x0E9D, 0x0E9D], [0x0E9D, 0x0E9D, 0x002D], [0x0E9D, 0x0E9D, 0x002D, 0x002D, 0x0E9D]],
    'Latn': [[0x002D, 0x006D, 0x006D], [0x006D, 0x006D, 0x002D], [0x006D, 0x006D, 0x002D, 0x002D, 0x006D, 0x006D]],
    'Mlym': [[0x002D, 0x0D1C, 0x0D1C], [0x0D1C, 0x0D1C, 0x002D], [0x0D1C, 0x0D1C, 0x002D, 0x002D, 0x0D1C, 0x0D1C]],
    'Mymr': [[0x002D, 0x1005, 0x1005], [0x1005, 0x1005, 0x002D], [0x1005, 0x1005, 0x002D, 0x002D, 0x1005, 0x1005]],
    'Orya': [[0x002D, 0x0B15, 0x0B15], [0x0B15, 0x0B15, 0x002D], [0x0B15, 0x0B15, 0x002D, 0x002D, 0x0B15, 0x0B15]],
    'Sinh': [[0x002D, 0x0DA8, 0x0DA8], [0x0DA8, 0x0DA8, 0x002D], [0x0DA8, 0x0DA8, 0x002D, 0x002D, 0x0DA8, 0x0DA8]],
    'Taml': [[0x002D, 0x0B9A, 0x0B9A], [0x0B9A, 0x0B9A, 0x002D], [0x0B9A, 0x0B9A, 0x002D, 0x002D, 0x0B9A, 0x0B9A]],
    'Telu': [[0x002D, 0x0C16, 0x0C16], [0x0C16, 0x0C16, 0x002D], [0x0C16, 0x0C16, 0x002D, 0x002D, 0x0C16, 0x0C16]],
    'Thaa': [[0x002D, 0x0786, 0x0786], [0x0786, 0x0786, 0x002D], [0x0786, 0x0786, 0x002D, 0x002D, 0x0786, 0x0786]],
    'Thai': [[0x002D, 0x0E01, 0x0E01], [0x0E01, 0x0E01, 0x002D], [0x0E01, 0x0E01, 0x002D, 0x002D, 0x0E01, 0x0E01]],
    'Tibt': [[0x002D, 0x0F40, 0x0F40], [0x0F40, 0x0F40, 0x002D], [0x0F40, 0x0F40, 0x002D, 0x002D, 0x0F40, 0x0F40]],
    'ja': [[0x002D, 0x3064, 0x3064], [0x3064, 0x3064, 0x002D], [0x3064, 0x3064, 0x002D, 0x002D, 0x3064, 0x3064]],
    'ko': [[0x002D, 0xAC00, 0xAC00], [0xAC00, 0xAC00, 0x002D], [0xAC00, 0xAC00, 0x002D, 0x002D, 0xAC00, 0xAC00]],
    'zh': [[0x002D, 0x4E24, 0x4E24], [0x4E24, 0x4E24, 0x002D], [0x4E24, 0x4E24, 0x002D, 0x002D, 0x4E24, 0x4E24]],
}

BEGIN_DIGIT_LABELS = {
    'Arab': [[0x0032, 0x062A, 0x062A], [0x0660, 0x062A, 0x062A], [0x06F5, 0x062A, 0x062A]],
    'Hebr': [[0x0033, 0x05D1, 0x05D1]],
    'Thaa': [[0x0034, 0x0786]],
}

MULTIPLE_DIGIT_SETS_LABELS = {
    'Arab': [[0x062A, 0x062A, 0x0032, 0x0662], [0x062A, 0x062A, 0x0032, 0x06F5], [0x062A, 0x062A, 0x0662, 0x06F5]],
    'Beng': [[0x09AE, 0x09AE, 0x0032, 0x09E9]],
    'Deva': [[0x092D, 0x0032, 0x0966]],
    'Gujr': [[0x0AAC, 0x0032, 0x0AEE]],
    'Khmr': [[0x178A, 0x0032, 0x17E5]],
    'Knda': [[0x0C85, 0x0CE7, 0x0031]],
    'Laoo': [[0x0E9D, 0x0ED9, 0x0033]],
    'Mymr': [[0x1005, 0x1042, 0x0035], [0x1005, 0x0035, 0x1095], [0x1005, 0x1042, 0x1095]],
    'Thai': [[0x0E01, 0x0E53, 0x0033]],
    'Tibt': [[0x0F40, 0x0033, 0x0F27]],
}

JAPANESE_CONTEXTJ_LABELS = {
    'ja': [[0x0062, 0x30FB, 0x0061]],
}
