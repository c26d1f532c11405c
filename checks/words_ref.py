"""Reference model of the word tokenizer, written from its rules: where a token starts decides its kind, the kind decides where it ends."""
from emoji import get_emoji_regexp

EMOJI = get_emoji_regexp()
EYES, NOSE, MOUTH = ':;=8', "-o*'", ')]([dDpP/:}{@|\\'
QUOTES = {"'", '\u2019'}
VOWELS = set('aáàâäąåoôóøeéèëêęiíïîıuúùûüyÿæœAÁÀÂÄĄÅOÓÔØEÉÈËÊĘIİÍÏÎYŸUÚÙÛÜÆŒ')
CONTRACTIONS = {'ll', 're', 'm', 's', 've', 'd'}
UNIONS = set('je tu il ils elle elles nous vous on le la les moi toi lui y'.split())
ABBREVIATIONS = set('apt appt dr etc jr m mgr min mr mrs ms mme mlle no p pp prof sr st vs'.split())
EMAIL = set("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789!#$%&*+-/=?^_`{|}~")
HANDLE = set('ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789_')


def blank(c):
    return c.isspace() or c <= '\x1f'


def smiley(s):
    """Length of the smiley or arrow s starts with."""
    n = len(s)

    def at(k):
        return s[k] if k < n else '\0'
    k = 0
    while at(k) == '-':
        k += 1
    if k and at(k) == '>':
        return k + 1
    if at(0) == '<' and at(1) == '-':
        k = 1
        while at(k) == '-':
            k += 1
        return k
    k = 1 if at(0) in '<>' else 0
    if at(k) in EYES:
        m = k + 2 if at(k + 1) in NOSE else k + 1
        if at(m) in MOUTH:
            return m + 1
    if at(0) in MOUTH:
        m = 2 if at(1) in NOSE else 1
        if at(m) in EYES:
            return m + 1
    if at(0) in '<:' and at(1) == '3' or s[:2] == '^^':
        return 2
    return 0


def symbols(s):
    """Tokens of a run of symbols: emojis, with the variation selector they carry, and single characters."""
    out = []
    p = 0
    for m in EMOJI.finditer(s):
        out += [('punct', c) for c in s[p:m.start()]]
        out.append(('emoji', m.group(0)))
        p = m.end()
    out += [('punct', c) for c in s[p:]]
    res = []
    for t in out:
        if t == ('punct', '\ufe0f') and res and res[-1][0] == 'emoji' and not res[-1][2]:
            res[-1] = ('emoji', res[-1][1] + t[1], True)
        else:
            res.append(t + (False,))
    return [t[:2] for t in res]


def email_like(s):
    k = 0
    while k < len(s) and s[k] in EMAIL:
        k += 1
    return 1 <= k <= 64 and k < len(s) and s[k] == '@'


def hashtag_parts(h):
    """Parts of a hashtag without its sigil: a digit run is a number; a capital starts a word unless it follows a capital and
    is not followed by a small letter."""
    h = h[1:]
    cuts = [0]
    kinds = ['n' if c.isdigit() else 'u' if c.isupper() else 'l' if c.islower() else 'o' for c in h]
    # state machine over kinds: word so far ends in a single capital, several capitals, small letters, or digits
    state = 'digits' if kinds[0] == 'n' else 'capital'
    for i in range(1, len(h)):
        k = kinds[i]
        if state == 'digits':
            if k != 'n':
                cuts.append(i)
                state = 'capital' if k == 'u' else 'small'
        elif k == 'n':
            cuts.append(i)
            state = 'digits'
        elif k == 'l':
            if state == 'capitals':
                cuts.append(i - 1)
            state = 'small'
        elif k == 'u':
            if state == 'small':
                cuts.append(i)
                state = 'capital'
            else:
                state = 'capitals'
    parts = [h[a:b] for a, b in zip(cuts, cuts[1:] + [len(h)])]
    return [('number' if p[0].isdigit() else 'word', p) for p in parts]


def number(s, i):
    """End of the number starting at i, None if it is no number but a word (digits then letters, - or _)."""
    j = i + 1
    comma = False
    prev = s[i]
    while j < len(s):
        n = s[j]
        if n.isdigit():
            pass
        elif prev in '.,' or n.isspace():
            break
        elif prev != '-' and (n.isalpha() or n in '-_'):
            return None, j
        elif n in '.,' and not comma:
            comma = True
        else:
            break
        prev = n
        j += 1
    if j > i + 1 and s[j - 1] in '.,':
        j -= 1
    return j, j


def reference(s, split_hashtags=False):
    out = []
    i, l = 0, len(s)
    hashtag = (lambda h: hashtag_parts(h)) if split_hashtags else (lambda h: [('hashtag', h)])
    while i < l:
        c = s[i]
        if blank(c):
            i += 1
            continue
        k = smiley(s[i:i + 64])
        if k:
            out.append(('smiley', s[i:i + k]))
            i += k
            continue
        kind, j, dotted = 'word', i + 1, False
        if c in '#$':
            if j >= l or not s[j].isalpha():
                out.append(('punct', c))
                i += 1
                continue
            kind = 'hashtag'
            while j < l and s[j].isalnum():
                j += 1
        elif c == '@':
            if j >= l or s[j] not in HANDLE:
                out.append(('punct', c))
                i += 1
                continue
            kind = 'mention'
            while j < l and s[j] in HANDLE:
                j += 1
        elif c.isdigit() or c == '-':
            e, j = number(s, i)
            if e is not None:
                kind = 'punct' if s[i:j] == '-' else 'number'
        elif not c.isalnum():
            while j < l and not (blank(s[j]) or s[j].isalnum() or s[j] in '#@'):
                j += 1
            if s[i:j] not in QUOTES:
                out += symbols(s[i:j])
                i = j
                continue
        if kind == 'word':
            ahead = s[i:i + 64]
            if ahead.startswith(('http://', 'https://')):
                kind = 'url'
            elif email_like(ahead):
                kind = 'email'
            while j < l and not s[j].isspace():
                n = s[j]
                if kind != 'word':
                    if n == ',':
                        break
                elif n in '-_·':
                    if j + 1 >= l or s[j + 1].isspace():
                        break
                elif n == '.' and s[j - 1].isupper():
                    dotted = True
                elif not n.isalnum():
                    break
                j += 1
        if s[i] in QUOTES and s[i + 1:j].lower() not in ('tis', 'twas'):
            out.append(('punct', s[i]))
            i += 1
            if i == j:
                continue
        t = s[i:j]
        if dotted:
            pieces = t.split('.')
            if all(len(p) <= 1 for p in pieces):
                out.append(('word', t))
            else:
                for k, p in enumerate(pieces):
                    if k:
                        out.append(('punct', '.'))
                    if p:
                        out.append(('word', p))
            i = j
            continue
        if j < l and s[j] in QUOTES and t != '-':
            q = s[j]
            k = j + 1
            while k < l and (s[k].isalnum() or s[k] in '#@$'):
                k += 1
            a = s[j + 1:k]
            if not a:
                out += hashtag(t) if kind == 'hashtag' else [(kind, t)]
                out.append(('punct', q))
                i = k
            elif a in CONTRACTIONS:
                out += hashtag(t) if kind == 'hashtag' else [(kind, t)]
                out.append(('word', q + a))
                i = k
            elif kind in ('hashtag', 'mention'):
                out += hashtag(t) if kind == 'hashtag' else [(kind, t)]
                out.append(('punct', q))
                i = j + 1
            else:
                kind = 'word' if kind in ('number', 'punct') else kind
                if a[0].isdigit():
                    joined = False
                elif t[-1] == 'n' and a == 't' or a == 'hui' or '-' in t:
                    joined = True
                else:
                    joined = t in ('O', 'o') or (a[0] not in 'h#@$' and t[-1] not in VOWELS and a[0] not in VOWELS)
                out.append((kind, t + q + a if joined else t + q))
                i = k if joined else j + 1
        elif j < l - 1 and s[j] == '.' and t.lower() in ABBREVIATIONS:
            out.append((kind, t + '.'))
            i = j + 1
        else:
            parts = t.split('-')
            if kind == 'word' and len(parts) == 3 and parts[1] == 't' and parts[0] and parts[2]:
                out += [('word', p) for p in parts]
            elif kind == 'word' and len(parts) == 2 and parts[1] in UNIONS:
                out += [('word', p) for p in parts]
            elif kind == 'hashtag':
                out += hashtag(t)
            else:
                out.append((kind, t))
            i = j
    return out
