"""Positive examples for the rules: each must be found, or the rules have gone vacuous."""

from . import html


BAD_MARKUP = [
    "<div><span></div></span>", "<p>a", "</div>", '<a id="x" id="y"></a>', '<a id="x></a>',
]
GOOD_MARKUP = ['<div class="a"><p>t <em>x</em></p><img src="y"></div>']


def selftest():
    ok = True
    for s in BAD_MARKUP:
        if not html.parse(s)[1]:
            print("selftest: not found:", s)
            ok = False
    for s in GOOD_MARKUP:
        if html.parse(s)[1]:
            print("selftest: false alarm:", s, html.parse(s)[1])
            ok = False
    print("selftest", "ok" if ok else "FAILED")
    return 0 if ok else 1
