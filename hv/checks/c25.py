"""C25: Tokenising loses no text and is insensitive to case and quote style."""

import unicodedata

from hyperreal import utilities

from .. import gen

RULE = (
    "A case tokenises a few hundred strings: words of known scripts with known separators, text "
    "built from word characters, marks, joiners, quotes, links, mentions and hashtags of every kind, and random "
    "code points. Non-trivial: the strings include letters, marks, blanks and quotes of at least five scripts or categories."
)
QUICK = {"cases": 240, "budget": 150}
THOROUGH = {"cases": 24000, "budget": 600}
REQUIRED = {
    "texts": 30000, "characters_accounted": 500000, "words_recognised": 80000,
    "left_out": 10000, "case_variants": 10000, "quote_variants": 5000,
}  # fmt: skip
ASSUMPTIONS = [
    "white space is what str.isspace says, case folding is what str.lower says",
    "words joined by characters that Unicode counts as part of words (as in can't or 1,000) are one token or several",
]

SPACES = [" ", "  ", "\t", "\n", "\r\n", "\xa0", "\u2003", "\u3000", "\u2028", "\x0b", "\x0c", "\x85"]
PUNCT = [", ", ". ", "! ", "? ", "; ", " - ", " (", ") ", " \"", "\" ", "-", "/", "!", "?", "(", ")", "[", "]", "…", "—", "+", "=", "*", "&", "%", "|", "<", ">", "“", "”", " “", "” "]
ALPHABETS = [
    "abcdefghijklmnopqrstuvwxyz", "ABCDEFGHIJKLMNOPQRSTUVWXYZ", "0123456789", "äöüßéèñçøåœ", "ÄÖÜÉÈÑÇØÅŒ",
    "абвгдежзийклмн", "АБВГДЕЖЗИЙКЛМН", "αβγδεζηθικλ", "ΑΒΓΔΕΖΗΘΙΚΛ",
]  # fmt: skip
ODD = [
    "İ", "ẞ", "ß", "ﬁ", "Σ", "ΑΣ", "e\u0301", "\u0301", "\u200d", "\u200b", "\ufeff", "👩\u200d👩\u200d👧", "🇦🇺", "日本語", "ไทย", "한국어", "ア", "שלום",
    "٣٤", "½", "\x00", "\x1c", "\u2019s", "can't", "can’t", "‘q’", "'q'", "''", "'", "’", "‘", "“q”", "1,000.5", "a.b", "a_b", "a:b", "__", ".", "·", "x'y'z", "\U0001d400", "\ud7ff",
]  # fmt: skip
MARKED = ["http://t.co/x", "https://t.co/Y?z#q", "HTTP://X.Y", "https://", "http://", "#tag", "#Tag's", "#", "@user", "@", "@@", "##x", "a@b.c", "x#y", "(https://a.b/c)", "＃tag", "http:/x", "httpx://", "shttps://y", "#日本", "@‘q’", "#a@b", "https://t.co/" + "path-" * 80, "#" + "tag" * 120, "@" + "u" * 400]


def word(rng):
    return "".join(rng.choices(rng.choice(ALPHABETS), k=rng.choice([1, 2, 3, 5, 9])))


def known_words(rng):
    """Words, and text in which they must be tokens of their own."""
    words = [word(rng) for _ in range(rng.choice([0, 1, 3, 8, 30]))]
    out = [rng.choice(["", "", " ", "\n", "(", "“"])]
    for w in words:
        out += [w, rng.choice(PUNCT if rng.random() < 0.5 else SPACES)]
        if rng.random() < 0.2:
            out.append(rng.choice(SPACES))
    return words, "".join(out)


def odd_text(rng):
    out = []
    for _ in range(rng.choice([1, 2, 5, 20])):
        r = rng.random()
        if r < 0.3:
            out.append(word(rng))
        elif r < 0.55:
            out.append(rng.choice(ODD))
        elif r < 0.7:
            out.append(rng.choice(MARKED))
        elif r < 0.78:
            c = rng.randrange(0x110000)
            out.append(chr(c) if not 0xD800 <= c <= 0xDFFF else "")
        elif r < 0.85:
            out.append(rng.choice(PUNCT))
        if rng.random() < 0.6:
            out.append(rng.choice(SPACES) if rng.random() < 0.5 else " ")
    return "".join(out)


def straight(text):
    for curly, plain in zip("‘’“”", "''\"\""):
        text = text.replace(curly, plain)
    return text


def kept(text):
    return "".join(c for c in text if not c.isspace() and c != "'")


def space(c):
    # The information separators are blanks to Python, but not to everyone.
    return c.isspace()


def leave_out(text):
    """The text without links, mentions and hashtags, and how many there were."""
    out, i, n = [], 0, 0
    while i < len(text):
        if text[i] in "#@" or text.startswith(("http://", "https://"), i):
            n += 1
            while i < len(text) and not space(text[i]):
                i += 1
        else:
            out.append(text[i])
            i += 1
    return "".join(out), n


def conserve(ctx, toks, text, what):
    toks = list(toks)
    ctx.check(all(isinstance(t, str) and t and not t.isspace() for t in toks), f"an empty or blank token ({what})", text=text, tokens=toks)
    ctx.equal(kept("".join(toks)), kept(text), f"the tokens are not the text ({what})", text=ascii(text), tokens=ascii(toks))
    ctx.ev("characters_accounted", len(text))


def case(ctx, rng, i):
    seen = set()
    for _ in range(150):
        if rng.random() < 0.4:
            words, text = known_words(rng)
            want = [w.lower() for w in words]
            for f in (utilities.tokens, utilities.social_media_tokens):
                got = [t for t in f(text) if any(c.isalnum() for c in t)]
                ctx.equal(got, want, "words that are apart are not tokens of their own", text=ascii(text), by=f.__name__)
            ctx.ev("words_recognised", len(words))
        else:
            text = odd_text(rng)
        seen |= {unicodedata.category(c) for c in text}
        low = straight(text).lower()
        toks = list(utilities.tokens(text))
        conserve(ctx, toks, low, "tokens")
        for f in (utilities.tokens, utilities.social_media_tokens):
            given, mine = f(text), list(f(text))
            if isinstance(given, list):  # what we were given is ours
                given.reverse()
                given.append("more")
                ctx.ev("results_altered")
            ctx.equal(list(f(text)), mine, "tokenising the same text again gives other tokens", text=ascii(text), by=f.__name__)
        ctx.equal(list(utilities.tokens(text)), toks, "tokenising the same text again gives other tokens", text=ascii(text))
        if low.lower() == low:
            ctx.equal(list(utilities.tokens(low)), toks, "case or quotes matter to tokens", text=ascii(text))
            ctx.ev("case_variants")
        if text.isascii():
            ctx.equal(list(utilities.tokens(text.swapcase())), toks, "case matters to tokens", text=ascii(text))
        curly = "".join(rng.choice("'‘’") if c in "'‘’" else rng.choice("\"“”") if c in "\"“”" else c for c in text)
        ctx.equal(list(utilities.tokens(curly)), toks, "the style of quotes matters to tokens", text=ascii(text), other=ascii(curly))
        social = list(utilities.social_media_tokens(text))
        ctx.equal(list(utilities.social_media_tokens(curly)), social, "the style of quotes matters to social media tokens", text=ascii(text))
        ctx.ev("quote_variants", curly != text)
        ctx.ev("texts")
        if not any("\x1c" <= c <= "\x1f" for c in low):
            rest, n = leave_out(low)
            conserve(ctx, social, rest, "social media tokens")
            if low.lower() == low:
                ctx.equal(social, list(utilities.tokens(rest)), "social media tokens are not the tokens of the rest", text=ascii(text), rest=ascii(rest))
            ctx.ev("left_out", n)
            if not n:
                ctx.equal(social, toks, "social media tokens of plain text", text=ascii(text))
    for n, text in enumerate(gen.ODD_STRINGS):
        conserve(ctx, utilities.tokens(text), straight(text).lower(), "tokens")
    if i % 40 == 0:
        big = " ".join(word(rng) for _ in range(20000))
        ctx.equal(len(list(utilities.tokens(big))), 20000, "words of a long text")
        ctx.sample({"text": text[:200], "tokens": toks[:20], "social": social[:20], "categories": sorted(seen)})
    if len(seen) >= 5:
        ctx.distinct((i, sorted(seen), rng.random()))
