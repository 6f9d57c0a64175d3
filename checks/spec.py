"""The input spaces of each property: jobs are (harness, [a, b, c, d]); `jobs` in both tiers, `deep` in thorough."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def known_findings():
    p = os.path.join(ROOT, "known_findings.json")
    return json.load(open(p)).get("findings", []) if os.path.exists(p) else []

ASSUMPTIONS = [
    "the IR rustc emits for the `ir` profile (opt-level 0, overflow checks on, then LLVM O1) has the semantics of the source; sampled paths and every counterexample are compared with native dev and release builds",
    "allocation never fails; memory is a flat 4 GiB space",
    "hash values are a constant (any hash function is allowed), so results cannot depend on hash order unless the code iterates over a hash table",
    "a panic ends the path (panic=abort in the IR)",
]
N_BLOCKS = 0x1100 - 8
def blocks(fn, chunk, *rest):
    """All 256-code-point blocks of Unicode, `chunk` blocks a job (from, count come first)."""
    return [(fn, [i, min(chunk, N_BLOCKS - i)] + list(rest)) for i in range(0, N_BLOCKS, chunk)]
PROPS = {}
NSUF = 76


L15 = range(15)
L17 = range(17)
L19 = range(19) # with Chinese and Japanese
SNOW = [i for i in L15 if i != 7]
BY_LANGUAGE = ("h_c12_lang", "h_c13_lang", "h_c14_lang", "h_c15_lang", "h_c16_lang", "h_c17_near", "h_c17_case", "h_c20_lang", "h_c21_two", "h_c21_history", "h_c21_fresh", "h_c21_long")
def needs(part, j):
    if part == "blocks": return j[0].startswith("h_c24_")
    if j[0].startswith("h_c25_"): return False
    return j[0].startswith("h_c23_") or j[0] in BY_LANGUAGE and j[1][0] >= 17
def each(fn, langs, *rest): return [(fn, [l] + list(rest)) for l in langs]
def jobs(fn, *args): return [(fn, list(a) if isinstance(a, (tuple, list)) else [a]) for a in args]
def some_blocks(fn, pre, chunk, *rest, ranges=((0, 0x30), (0xa0, 0x108))):
    return [(fn, list(pre) + [i, min(chunk, hi - i)] + list(rest)) for lo, hi in ranges for i in range(lo, hi, chunk)]
def lang_blocks(fn, l, chunk, *rest): return [(f, [l] + a) for f, a in blocks(fn, chunk, *rest)]
CODES = "da du fi fr de hu it ko no pt ro ru es sv tr".split()
def stop_counts():
    import re
    s = open(os.path.join(ROOT, "harness/src/langs.rs")).read()
    return [len(re.findall(r'"[^"]*"', re.search(r"const STOP_%s: &\[&str\] = &\[(.*?)\];" % c.upper(), s, re.S).group(1))) for c in CODES]
NSTOP = stop_counts()
def words(fn, l, chunk, *rest): return [(fn, [l, i, min(chunk, NSTOP[l] - i)] + list(rest)) for i in range(0, NSTOP[l], chunk)]
ALLU = "all 1,112,064 Unicode scalar values"
LANGS17 = "the 17 languages other than Chinese and Japanese"
LANGS19 = "all 19 languages (Chinese and Japanese with a stand-in segmenter that returns the text as one token)"

PROPS["C01"] = dict(
    jobs=jobs("h_c01_word", *range(8, -1, -1)) + [("h_c01_suffix", [4 if a < 8 else 3, a]) for a in range(NSUF)]
         + [("h_c01_long", [l, p, a, 2]) for l in (9, 30) for p in range(10) for a in (0, 6, 9, 17, 27, 41)] + [("h_c01_long", [l, p, a, 2]) for l in (70, 130, 260, 1030) for p in (0, 3, 7) for a in (0, 9, 27)],
    deep=[("h_c01_end", [n, k]) for n in (9, 10) for k in range(27)] + [("h_c01_suffix", [4, a]) for a in range(8, NSUF)] + [("h_c01_suffix", [5, a]) for a in range(NSUF)]
         + [("h_c01_long", [l, p, a, 4]) for l in (12, 60) for p in range(10) for a in range(0, NSUF, 2)],
    reach=[1, 2],
    bounds="quick: every token of 0 to 8 printable ASCII characters other than upper-case letters (69^8); every 3 or 4 such characters followed by each pair of the 76 suffixes the rules mention; repeated patterns of 9 to 1,030 characters with symbolic ends and 3 to 6 suffixes. thorough: every token of up to 10 characters, 5 characters before each pair of suffixes, longer patterns with more symbolic characters",
    outside="tokens longer than that which are not a symbolic stem plus known suffixes; control characters and non-ASCII (C02)")
PROPS["C02"] = dict(
    jobs=jobs("h_c02_long", (12000,)) + [("h_c02_size", [a, 20, 0, e]) for a in range(0, 300, 20) for e in (0, 1)] + [("h_c02_size", [a, 6, 0, 0]) for a in (508, 1020, 4092)] + jobs("h_c02_text", (4, 0), (3, 0), (2, 0), (2, 7), (3, 7)) + jobs("h_c02_stem_small", (4, 0, 26), (3, 0, 26)) + jobs("h_c02_stem", (3, 0, 13), (3, 13, 13), (2, 0, 26))
        + blocks("h_c02_char", 256, 0, 0) + blocks("h_c02_char", 256, 2, 1),
    deep=jobs("h_c02_long", (30000,)) + jobs("h_c02_stem", (4, 0, 9), (4, 9, 9), (4, 18, 8)) + jobs("h_c02_stem_small", (5, 0, 13), (5, 13, 13)) + jobs("h_c02_text", (5, 0), (4, 7), (4, 5), (4, 12), (3, 20))
        + sum([blocks("h_c02_char", 256, s, t) for s in (1, 2, 3) for t in (0, 1)], []),
    reach=[1, 2],
    bounds="quick: tokens of 2 to 4 characters, each any of 46 (16 for 4) characters covering every UTF-8 width, shared final bytes, control characters, case-mapping specials and all letters the rules test, followed by any of 26 suffix tails; texts of 2 to 4 such characters through tokenizer and pipeline, plain or with a tail; " + ALLU + " before every tail, alone and doubled after a vowel; runs of one character of every width, with 9 tails, of every length up to 300 bytes and around 512, 1,024 and 4,096; one run of 12,000 y. thorough: 5 characters, every shape, a run of 30,000 y",
    outside="longer combinations of several non-ASCII characters")
PROPS["C03"] = dict(
    jobs=jobs("h_c03_trim", *range(6, -1, -1)) + blocks("h_c03_char", 256) + jobs("h_c03_trim_long", 5, 40, 300) + jobs("h_c03_stop", *range(0, 10)) + jobs("h_c03_near", (0, 4)) + jobs("h_c03_list", (2, 2), (3, 1), (3, 2), (2, 3), (4, 1)),
    deep=jobs("h_c03_trim", 7) + jobs("h_c03_stop", *range(10, 16)) + jobs("h_c03_near", (0, 119)) + jobs("h_c03_list", (4, 2), (3, 3), (5, 1)) + jobs("h_c03_trim_long", 3000),
    reach=[1, 2, 3, 4, 5, 6],
    bounds="trimmer: every token of up to 6 (thorough: 7) characters of an alphabet with word characters, foreign characters of every UTF-8 width and the neighbours of the word ranges; " + ALLU + " at both ends and inside; runs of up to 300 characters. stop words: every ASCII token of 0 to 9 (15) bytes, every stop word, and edits of stop words; whole stages on lists of up to 4 tokens",
    outside="tokens with more than 7 arbitrary characters")
PROPS["C04"] = dict(
    jobs=jobs("h_c04_text", 4, 3, 2, 1, 0) + jobs("h_c04_text_small", 5) + blocks("h_c04_char", 256) + jobs("h_c04_long", 20, 70, 500) + jobs("h_c04_huge", 1100, 66000) + [("h_c04_lang", [2, i, min(3, 17 - i)]) for i in range(0, 17, 3)],
    deep=jobs("h_c04_text", 5) + jobs("h_c04_text_small", 6, 7) + [("h_c04_lang", [3, i, 1]) for i in range(17)] + jobs("h_c04_long", 5000),
    reach=[0, 1, 2, 3, 4, 5],
    bounds="every text of up to 4 (thorough: 5) characters of 30 (separators of every kind, near misses of separators, letters whose lower case changes length or depends on context, all UTF-8 widths), up to 5 (7) of a smaller alphabet; " + ALLU + " in 6 contexts each; long texts of up to 500 (5,000) words or separators with symbolic characters, and of 66,000 with a symbolic end; the tokenizer of each of " + LANGS17 + " on texts of 2 (3)",
    outside="longer texts with all characters arbitrary; the lower-casing itself is compared with the standard library's")
PROPS["C05"] = dict(
    jobs=[("h_c05_run", [k, n, 6]) for k in (2, 1, 0) for n in (2, 1, 0)] + jobs("h_c05_run", (3, 2, 3), (3, 3, 3), (2, 3, 4), (2, 4, 3)) + jobs("h_c05_deep", (6, 2, 0), (6, 2, 1), (12, 3, 1), (40, 2, 0), (70, 1, 1), (300, 1, 1, 1)) + jobs("h_c05_wide", (40, 2), (400, 2), (66000, 1)) + jobs("h_c05_fn", (2, 3), (3, 3)) + jobs("h_c05_token", (1, 0), (1, 1), (1, 0x20), (1, 0x30), (1, 0xfe), (1, 0x1f6), (2, 0), (3, 0)),
    deep=jobs("h_c05_run", (3, 2, 6), (3, 4, 3), (4, 2, 3), (2, 5, 3), (2, 3, 6)) + jobs("h_c05_deep", (40, 3, 0), (40, 3, 1)) + jobs("h_c05_wide", (4000, 2)) + jobs("h_c05_fn", (4, 3), (3, 4)),
    reach=[0, 1, 2, 3, 6],
    bounds="every queue of up to 3 stages, each stage mapping tokens to any of up to 6 results per class of token (keep, drop, append, prepend, empty, change class), on every list of up to 4 tokens (combinations as listed in the jobs); 6 to 300 stages around one arbitrary stage; 400 and 66,000 tokens around an arbitrary one; function stages on tokens of up to 3 characters. thorough: 4 stages, 5 tokens, 40 stages, 4,000 tokens",
    outside="stages with state of their own; longer queues of arbitrary stages")
PROPS["C06"] = dict(
    jobs=sum([each("h_c06_mix", L15, n) for n in (4, 3, 2, 1, 0)] + [each("h_c06_short", L15, n) for n in (5, 4)] + [each("h_c06_ctl", L15, n) for n in (4, 3, 2)] + [each("h_c06_long", L15, n) for n in (3, 40, 400)], [])
        + sum([some_blocks("h_c06_char", [l], 48, 0) for l in L15] + [some_blocks("h_c06_char", [l], 48, s) for l in (1, 7, 11) for s in (1, 2)], []) + lang_blocks("h_c06_char", 7, 128, 0),
    deep=sum([lang_blocks("h_c06_char", l, 128, s) for l in L15 for s in (0, 1, 2)], []) + sum([each("h_c06_mix", L15, 5), each("h_c06_short", L15, 6), each("h_c06_ctl", L15, 5), each("h_c06_long", L15, 3000)], []), reach=[1, 2, 3],
    bounds="15 languages: every token of up to 4 (thorough: 5) characters of 20 (script members, near misses, punctuation, digits, marks, every UTF-8 width), up to 5 (6) of 8; up to 4 (5) of 9 with line ends, blanks and control characters; every code point of the blocks that contain Latin, Cyrillic or Hangul letters and their neighbours, alone (all languages) and in two contexts (Dutch, Korean, Russian); every scalar value for Korean; thorough: " + ALLU + " in three contexts for every language; runs of 400 (3,000)",
    outside="Chinese and Japanese; tokens with more than 6 arbitrary characters")
PROPS["C07"] = dict(
    jobs=sum([each("h_c07_word", L15, n, 0) for n in range(0, 13)] + [each("h_c07_word", L15, n, 1) for n in range(1, 13)] + [each("h_c07_word", L15, n, 2) for n in range(2, 11)], [])
        + sum([words("h_c07_list", l, 200) + words("h_c07_near", l, 200, 0) + words("h_c07_near", l, 200, 2 if l != 7 else 3) for l in L15], []),
    deep=sum([each("h_c07_word", L15, n, 0) for n in range(13, 25)] + [each("h_c07_word", L15, n, 2) for n in range(11, 17)] + [words("h_c07_near", l, 200, w) for l in L15 for w in (2, 3, 4)], []), reach=[1, 2],
    bounds="15 languages: every token of 0 to 12 (thorough: 24) letters from the list's own alphabet plus strangers, with up to two characters of another UTF-8 width at any positions; every word of the list, doubled, and with any ASCII byte at either end; every word with one character replaced, inserted or removed. The lists are constants of the harness, taken from the lunr-languages files in /repo/js and the pinned tree",
    outside="tokens with three or more characters of the rarer widths")
PROPS["C08"] = dict(
    jobs=each("h_c08_stem", [l for l in SNOW if l not in (14,)], 4, 0, 0) + sum([each("h_c08_stem", SNOW, n, 0, 0) for n in (3, 2, 1, 0)] + [each("h_c08_stem", SNOW, n, 1, 0) for n in (2, 1)] + [each("h_c08_stem", SNOW, 2, 1, 1)] + [each("h_c08_all", SNOW, n, 0, d) for n, d in ((0, 1), (1, 2), (2, 0), (3, 0), (4, 0))], [])
        + sum([some_blocks("h_c08_char", [l], 48, s) for l in SNOW for s in (0, 1, 2)], []),
    deep=each("h_c08_stem", [14], 4, 0, 0) + each("h_c08_stem", SNOW, 3, 1, 0) + each("h_c08_stem", SNOW, 3, 1, 1) + each("h_c08_all", SNOW, 5, 0, 0) + each("h_c08_all", SNOW, 3, 0, 3) + sum([lang_blocks("h_c08_char", l, 128, 0) for l in SNOW], []),
    reach=[1, 2, 3, 4],
    bounds="14 languages: the stemming stage on every token of up to 4 (Turkish: 3; thorough: 4) characters of an alphabet of some 26 letters of the language and 6 strangers, and 2 (3) such characters before or after each of the language's typical suffixes; the code points of the Latin, Cyrillic and neighbouring blocks (thorough: all) in three contexts; the whole pipeline against trim, stop list, stem on one or two tokens of up to 4 (5)",
    outside="longer tokens outside the suffix patterns. The reference is the rust-stemmers crate called with the language's algorithm, so errors inside that crate are not seen")
PROPS["C09"] = dict(
    jobs=jobs("h_c09_word", 4, 3, 2, 1, 0) + jobs("h_c09_small", 4, 5, 6, 7) + blocks("h_c09_char", 256) + jobs("h_c09_long", 2, 30, 300),
    deep=jobs("h_c09_word", 5) + jobs("h_c09_small", 8) + jobs("h_c09_long", 3000), reach=[1, 2, 3], known=[(900, "ar-alef", ("h_c09_word", [2], [5, 8]))],
    bounds="every token of up to 4 (thorough: 5) characters of 24 (all marks' range ends, all alef variants, plain letters, the neighbours of every range, other widths), up to 7 (8) of 7; " + ALLU + " in three contexts; runs of 300 (3,000) marks",
    outside="longer tokens with all characters arbitrary")
PROPS["C10"] = dict(
    jobs=jobs("h_c10_two", (3, 3), (3, 2), (4, 1), (2, 3)) + jobs("h_c10_one", (5, 2), (4, 3), (6, 1), (5, 1), (4, 2), (3, 3)) + jobs("h_c10_wide", (3, 1), (2, 2), (2, 1), (1, 3)) + jobs("h_c10_refs", (2, 2), (3, 1)) + jobs("h_c10_step", 10, 40) + jobs("h_c10_scale", 50, 300) + jobs("h_c10_huge", 66000) + jobs("h_c10_long", 40, 400) + blocks("h_c10_char", 256),
    deep=jobs("h_c10_two", (4, 2), (5, 1)) + jobs("h_c10_one", (5, 3), (6, 2), (7, 1)) + jobs("h_c10_step", 200) + jobs("h_c10_wide", (2, 3), (3, 2), (4, 1)) + jobs("h_c10_scale", 3000) + jobs("h_c10_long", 2000), reach=[0, 1, 2, 3],
    bounds="every history of k operations (add or remove, token of up to m characters of an alphabet, document) followed by every probe: alphabet {a, b, é, 😀} with (k, m) up to (2,2) and (3,1), {a, b} up to (3,3) and (4,1), {a} up to (4,3), (5,2) and (6,1); 2 or 3 operations on documents with arbitrary references of up to 2 characters; an arbitrary operation and probe after a fixed history of 40; " + ALLU + " in tokens; 300 and 66,000 documents under a token; tokens of 400 characters. thorough: (2,3), (3,2), (4,2), (5,3), (6,2), (7,1) and larger fixed parts",
    outside="longer histories in which every operation is arbitrary")
PROPS["C11"] = dict(
    jobs=jobs("h_c11_history", (6, 1), (4, 2), (5, 1), (3, 3), (4, 1), (2, 3), (1, 3)) + jobs("h_c11_large", (20, 2), (300, 1)) + blocks("h_c11_names", 256),
    deep=jobs("h_c11_history", (5, 2), (4, 3), (7, 1), (5, 3)) + jobs("h_c11_large", (3000, 1), (20, 3)), reach=[1, 2, 3],
    bounds="every history of k operations (add, remove, record a field length; two fields; contents with symbolic characters) over r references, saving on and off: (k, r) up to (3,3), (4,2), (6,1); one or two arbitrary operations on stores of 20 and 300 documents; " + ALLU + " in references and field names, with arbitrary 64-bit field lengths. thorough: (5,3), (7,1), 3,000 documents",
    outside="longer histories; a length recorded for an absent document may or may not be forgotten when that document is removed")
PROPS["C12"] = dict(
    jobs=jobs("h_c12_docs", (3, 1, 1), (2, 1, 2), (2, 2, 1), (1, 2, 2), (1, 1, 4), (1, 3, 1), (1, 1, 5)) + jobs("h_c12_exact", (2, 1, 3, 1), (2, 1, 4, 1), (2, 2, 2, 1), (1, 1, 6, 1), (1, 1, 4, 0)) + jobs("h_c12_fewer", (2, 3, 1), (3, 2, 1))
        + jobs("h_c12_refs", 2) + jobs("h_c12_fields", 1, 2) + jobs("h_c12_count", (65535, 1), (0, 200), (201, 80)) + jobs("h_c12_many", 10, 150, 300) + jobs("h_c12_tokenizer", (2, 1), (1, 2), (3, 1)) + jobs("h_c12_lang", (0, 3, 0, 1), (0, 2, 1, 1), (0, 3, 1, 1)) + each("h_c12_lang", L19, 3, 0, 0) + each("h_c12_lang", L19, 1, 1, 0) + blocks("h_c12_char", 256),
    deep=jobs("h_c12_docs", (3, 1, 2), (2, 1, 3), (1, 2, 3), (4, 1, 1), (2, 3, 1), (3, 2, 1)) + jobs("h_c12_exact", (2, 2, 3, 1), (1, 1, 8, 1), (3, 1, 2, 0)) + jobs("h_c12_refs", 3) + [("h_c12_count", [n, 40]) for n in range(281, 1200, 41)] + jobs("h_c12_many", 600) + jobs("h_c12_tokenizer", (2, 2), (4, 1)) + each("h_c12_lang", L19, 2, 1, 0) + each("h_c12_lang", L19, 4, 0, 0),
    reach=[1, 2, 3, 4, 5, 6],
    bounds="the whole index JSON of 1 to 3 documents with 1 to 3 fields, every text of up to n characters of a 6-letter (3-letter) alphabet of a test language in which characters become tokens, empty tokens, several tokens, dropped or rewritten ones (k documents x f fields x n characters as in the jobs, e.g. 3x1x1, 2x1x2, 2x2x1, 1x1x5); documents with fewer values than fields; up to 281 and 65,535 to 65,536 occurrences of a token; 300 fixed documents and an arbitrary one; two fields with arbitrary names of up to 2 characters; arbitrary references of up to 2 characters; " + ALLU + " in a text; own tokenizers; " + LANGS19 + " with their own tokenizer and pipeline on texts of 3 symbolic characters. thorough: 4 documents, 3x2x1, 8 characters, 1,200 occurrences",
    outside="documents given more values than there are fields; re-used references and a field named like the reference field (C22); weights are compared as the shortest decimal of the square root")
PROPS["C13"] = dict(
    jobs=jobs("h_c13_shape", (0, 1, 0), (0, 3, 0), (1, 1, 2), (2, 2, 1), (3, 1, 1), (4, 1, 1)) + [("h_c13_odd", [n, i]) for n in (2, 1, 0) for i in range(5) if n or i not in (0,)] + each("h_c13_lang", L19, 3) + each("h_c13_lang", L19, 2) + jobs("h_c13_deep", 1, 20, 120, 400) + jobs("h_c13_stages", (2, 2), (3, 1), (0, 0), (1, 3))
        + sum([blocks("h_c13_char", 256, i) for i in range(5)], []),
    deep=[("h_c13_odd", [3, i]) for i in range(5)] + jobs("h_c13_shape", (3, 2, 1), (2, 1, 2), (2, 1, 3), (5, 1, 1)) + each("h_c13_lang", L19, 4) + jobs("h_c13_deep", 600), reach=[1, 2, 3], crash=[("token-stack", "h_c13_stack", [200000])],
    bounds="byte-exact comparison with an independently written JSON text: indexes with up to 2 (thorough: 3) arbitrary characters out of 16 that need care (quotes, backslash, controls, separators, non-characters, every width) as field name, reference, reference field, text or token; " + ALLU + " at each of these five places; every shape of up to 3 documents, 3 fields and 2 characters; trees of depth 400; languages and up to 3 stages with arbitrary names; " + LANGS19 + "; the pretty form is compared after removing white space",
    outside="members in another order than elasticlunr.js writes them would be accepted; weights other than square roots of small numbers")
PROPS["C14"] = dict(
    jobs=jobs("h_c14_calls", (4, 3), (4, 2), (3, 3), (2, 4), (1, 4)) + jobs("h_c14_names", (2, 2), (3, 1), (2, 3), (4, 1), (5, 1), (3, 2)) + jobs("h_c14_many", 3, 60, 300) + jobs("h_c14_index", 3, 4) + each("h_c14_lang", L19, 2) + each("h_c14_lang", L19, 3),
    deep=jobs("h_c14_calls", (5, 2), (5, 3), (4, 4)) + jobs("h_c14_names", (6, 1), (4, 2), (3, 3)) + each("h_c14_lang", L19, 4), reach=[0, 1, 2, 3, 4, 5],
    bounds="every sequence of up to 4 (thorough: 5) builder calls out of five kinds with every choice among 3 field names, each followed by building, adding a document and comparing the whole JSON; up to 5 (6) fields with arbitrary names of up to 3 characters; 300 fields and any one of them again; Index::new and with_language with every list of up to 3 names out of 4; " + LANGS19 + " with a default and an own tokenizer",
    outside="a field named like the reference field (C22); longer call sequences")
PROPS["C15"] = dict(
    jobs=jobs("h_c15_partial", (2, 1, 0), (2, 1, 1), (2, 1, 2), (3, 0, 1), (2, 0, 0), (3, 0, 2)) + jobs("h_c15_orders", (2, 1, 2), (2, 2, 1), (3, 1, 1), (2, 1, 3), (4, 1, 1)) + jobs("h_c15_twice", (2, 1, 2), (3, 1, 1), (3, 1, 2), (4, 1, 1)) + jobs("h_c15_refs", 1, 2, 3) + jobs("h_c15_many", 20, 60, 300) + each("h_c15_lang", L19, 1) + each("h_c15_lang", L19, 2),
    deep=jobs("h_c15_orders", (3, 2, 1), (3, 1, 2), (2, 3, 1)) + jobs("h_c15_twice", (2, 2, 2), (5, 1, 1)) + jobs("h_c15_many", 300) + each("h_c15_lang", L19, 3), reach=[1, 2, 3],
    bounds="every set of 2 to 4 documents (also some with fewer values than fields and with odd field names; texts of up to 3 characters, up to 2 fields, combinations as in the jobs) in every order; arbitrary distinct references of up to 3 characters; 300 documents with two exchanged or all reversed; " + LANGS19 + " with two documents; hash values are not modelled as random: an index whose order came from a hash table would be reported when the two builds insert in different orders",
    outside="orders of more than 4 arbitrary documents")
PROPS["C16"] = dict(
    jobs=jobs("h_c16_docs", (1, 1, 3), (2, 1, 1), (1, 2, 2), (2, 2, 1), (3, 1, 1), (2, 1, 2), (4, 1, 1), (1, 1, 4)) + jobs("h_c16_again", 2, 3) + jobs("h_c16_wide", (20, 10), (3, 5000), (3, 70000)) + jobs("h_c16_many", 10, 80, 300) + each("h_c16_lang", L19, 2) + blocks("h_c16_char", 256),
    deep=jobs("h_c16_docs", (3, 2, 1), (2, 1, 3), (3, 1, 2)) + jobs("h_c16_again", 4) + jobs("h_c16_many", 400) + each("h_c16_lang", L19, 3), reach=[1, 2],
    bounds="both indexes built and compared for every set of 1 to 4 documents with 1 or 2 fields of up to n characters (as in the jobs), with the switch set before, after or twice around adding fields; re-added references; 1 to 20 fields, texts of up to 70,000 characters; 300 (400) documents; " + ALLU + " in a text; " + LANGS19,
    outside="larger arbitrary documents")
PROPS["C17"] = dict(
    jobs=jobs("h_c17_code", *range(0, 17)) + jobs("h_c17_name", *range(0, 21)) + sum([each("h_c17_near", L19, f, 256, d) for d in (0, 1) for f in (0, 256)], []) + each("h_c17_case", L19) + [("h_c17_list", [])],
    deep=sum([each("h_c17_near", L19, f, 256, d) for d in (0, 1) for f in range(512, N_BLOCKS, 256)], []) + jobs("h_c17_code", *range(17, 65)) + jobs("h_c17_name", *range(21, 65)), reach=[1, 2, 3, 4, 5],
    bounds="every ASCII string of up to 16 (thorough: 64) bytes as a code and up to 20 (64) as a name; every code and name with one character replaced by or with an inserted one of the first 131,072 code points (all), or removed; every letter case of every code and name; the pipelines are told apart by their stage names and by what they do to 8 words",
    outside="builds with other sets of language features")
PROPS["C18"] = dict(
    jobs=[("h_c18_fields", [0, 8]), ("h_c18_fields", [1, 8])] + [("h_c18_fields", [2, k]) for k in range(8)] + jobs("h_c18_names", (2, 1), (3, 1), (1, 2), (1, 3), (2, 2), (4, 1)) + [("h_c18_defaults", [])] + jobs("h_c18_many", 3, 40, 200, 300) + blocks("h_c18_char", 256),
    deep=[("h_c18_fields", [3, k]) for k in range(8)] + jobs("h_c18_names", (3, 2), (2, 3), (5, 1)), reach=[1, 2, 3],
    bounds="every configuration with 0 to 2 (thorough: 3) fields: all 256 boosts, both operators, both expansion values, each set or not; up to 3 fields with arbitrary names of up to 2 (4 for one) out of 8 characters that need care; " + ALLU + " in a field name; 300 fields",
    outside="more than three fields with all options arbitrary; JSON not written by the crate")
PROPS["C19"] = dict(
    jobs=[("h_c19_index", [3, 1]), ("h_c19_index", [2, 2])] + [("h_c19_store", [k, r, s]) for s in (0, 1) for k, r in ((3, 3), (2, 3), (1, 3))] + [("h_c19_store", [4, 1, 1]), ("h_c19_index", [1, 3]), ("h_c19_index", [2, 1])] + jobs("h_c19_names", *range(1, 9)) + jobs("h_c19_large", 10, 100, 300) + jobs("h_c19_deep", (60, 10), (110, 10), (120, 10)) + [("h_c19_weights", [a, 50]) for a in range(1, 1000, 50)]
        + blocks("h_c19_storechar", 256) + blocks("h_c19_indexchar", 256),
    deep=jobs("h_c19_store", (4, 2, 0), (4, 2, 1), (5, 1, 1)) + jobs("h_c19_index", (2, 3)) + jobs("h_c19_large", 600), reach=[1, 2, 3], known=[(901, "json-float", ("h_c19_weights", [1, 50], [13])), (902, "json-depth-tree", ("h_c19_deep", [120, 10], [5, 0]))],
    bounds="document stores after every history of up to 3 operations on 3 references (thorough: 4 on 2, 5 on 1), inverted indexes after every history of 3 operations on tokens of up to 1 character, 2 operations on up to 2 (3), out of {a, \", é, d}; " + ALLU + " in tokens, references, fields and texts; tokens around the member names docs and df; 300 (600) entries; tokens of up to 129 characters; the square roots of 1 to 1,000 as weights; compact and pretty forms",
    outside="other weights")
PROPS["C20"] = dict(
    jobs=jobs("h_c20_docs", (1, 1, 2), (1, 2, 1), (3, 1, 1), (2, 1, 1), (0, 1, 2), (0, 1, 3)) + each("h_c20_lang", L19, 2) + jobs("h_c20_unknown", 0, 1, 2) + jobs("h_c20_many", 10, 60, 300) + jobs("h_c20_deep", (60, 10), (110, 10), (120, 10)) + blocks("h_c20_char", 256),
    deep=jobs("h_c20_docs", (2, 2, 1), (2, 1, 2), (1, 1, 3), (4, 1, 1)) + each("h_c20_lang", L19, 3) + jobs("h_c20_many", 3000), reach=[1, 2, 3], known=[(902, "json-depth", ("h_c20_deep", [120, 10], [5, 0]))],
    bounds="English indexes of 0 to 3 (thorough: 4) documents with 1 or 2 fields of up to 2 (3) characters, with another reference name or saving off, read back and given one more document (new or under a used reference) with symbolic text; the same for " + LANGS19 + " with texts of 2 (3) symbolic characters; " + ALLU + " in a text, a reference and a field name; 300 (3,000) documents; tokens of up to 129 characters; an index of a custom language is refused without a panic",
    outside="indexes with custom tokenizers, which the JSON does not contain; weights that serde_json does not read back exactly (known finding of C19); JSON not written by the crate (C26)")
PROPS["C21"] = dict(
    jobs=sum([each("h_c21_two", L19, a, b) for a, b in ((2, 2), (3, 1), (1, 3), (1, 1))] + [each("h_c21_history", L19, n, k) for n, k in ((4, 40), (3, 400))] + [each("h_c21_fresh", L19, n) for n in (0, 1, 2, 3)] + [each("h_c21_long", L19, 2, 66000)], []),
    deep=sum([each("h_c21_two", L19, a, b) for a, b in ((3, 2), (3, 3), (4, 1))] + [each("h_c21_history", L19, n, k) for n, k in ((5, 40), (3, 5000))] + [each("h_c21_fresh", L19, 4)], []), reach=[4, 5, 6],
    bounds=LANGS19 + ": every two tokens of up to 2 and 2, or 3 and 1 (thorough: 3 and 3), characters out of 9 (4 for Arabic, Korean, Russian) run together, apart and again; every token of up to 4 (5) such characters after 40 fixed tokens and of 3 after 400 (5,000), of 2 after 66,000 times the same one, and on a pipeline without history",
    outside="longer arbitrary tokens; tokens from other alphabets")
PROPS["C22"] = dict(
    jobs=jobs("h_c22_again", (4, 2, 1, 1), (2, 2, 1, 2), (3, 2, 1, 1), (2, 2, 2, 1), (3, 3, 1, 1), (2, 1, 1, 3)) + jobs("h_c22_reffield", (2, 0, 1), (2, 1, 1), (2, 2, 1), (1, 0, 2), (1, 1, 2), (1, 2, 2)) + jobs("h_c22_reftext", 1, 2, 3) + jobs("h_c22_many", 10, 60, 300),
    deep=jobs("h_c22_again", (3, 2, 1, 2), (4, 3, 1, 1), (5, 2, 1, 1), (2, 2, 3, 1), (3, 2, 2, 1)) + jobs("h_c22_reffield", (2, 0, 2), (3, 1, 1)) + jobs("h_c22_many", 1000), reach=[1, 2, 3],
    bounds="the whole index JSON after every sequence of k additions under r references with f fields (later ones possibly left out) of up to n characters, saving on and off: (k, r, f, n) up to (4, 2, 1, 1), (3, 3, 1, 1), (2, 2, 2, 1), (2, 2, 1, 2) (thorough: (5, 2, 1, 1), (3, 2, 2, 1), (3, 2, 1, 2), (2, 2, 3, 1)); a field of the reference field's name at every position among three; 300 (1,000) documents and two arbitrary additions",
    outside="with saving on, a text for the reference-named field that differs from the reference (either may be stored)")
PROPS["C23"] = dict(
    jobs=sum([each("h_c23_trim", (0, 1), n) for n in (3, 2, 1, 0)] + [each("h_c23_short", (0, 1), n) for n in (5, 4)] + [each("h_c23_pipe", (0, 1), n, k) for n, k in ((2, 2), (1, 3), (3, 1), (0, 0))] + [each("h_c23_tokens", (0, 1), n, m) for n, m in ((2, 2), (1, 3), (3, 1), (1, 1), (0, 1), (2, 0))], [])
        + [("h_c23_tokens", [0, 3, 2]), ("h_c23_tokens", [0, 4, 1]), ("h_c23_tokens", [1, 4, 1]), ("h_c23_tokens", [0, 5, 1])] + jobs("h_c23_pos", *range(0, 5)) + jobs("h_c23_stop", *range(0, 5)) + sum([each("h_c23_index", (0, 1), n, m) for n, m in ((2, 1), (3, 1), (1, 2))], []) + [("h_c23_index", [0, 2, 2]), ("h_c23_names", [])]
        + sum([[("h_c23_char", [f, min(64, hi - f), l, s]) for lo, hi in ((0, 0x100), (0x1f0, 0x210)) for f in range(lo, hi, 64)] for l in (0, 1) for s in (0, 1)], []) + blocks("h_c23_stopchar", 256) + blocks("h_c23_last", 256, 0) + blocks("h_c23_last", 256, 1),
    deep=sum([each("h_c23_trim", (0, 1), 4), each("h_c23_short", (0, 1), 6), each("h_c23_pipe", (0, 1), 2, 3), each("h_c23_tokens", (0, 1), 3, 2), each("h_c23_tokens", (0, 1), 2, 3), each("h_c23_index", (0, 1), 2, 2)] + [blocks("h_c23_char", 64, l, s) for l in (0, 1) for s in (0, 1, 2)], []), reach=list(range(1, 12)),
    bounds="trimmers: every token of up to 3 (thorough: 4) characters out of 28 and up to 5 (6) out of 8, and in two contexts every code point of U+0000 to U+FFFF and the first supplementary ideographs (thorough: " + ALLU + " in three contexts); stop words: every token of up to 4 characters out of 9, every single character; tokenizers: every text of up to 5 characters out of 8 with every piece of it, of up to 3 (2 for Japanese) with every choice of 2 pieces, of 1 with 3 (any sub-strings, in any order, overlapping or empty), for Japanese with ten kinds of details, and with every part of speech of up to 4 characters out of 10; whole indexes of one document",
    outside="what jieba and lindera find in a text: they are replaced by stand-ins (stubs/) that return arbitrary pieces for the mode the crate must ask for and the whole text for every other; builds in which the crate calls parts of them that the stand-ins lack are reported as not decided")
PROPS["C24"] = dict(
    jobs=jobs("h_c24_stop", (2, 2, 2), (3, 1, 1), (1, 2, 3), (0, 0, 1), (2, 1, 0), (1, 3, 2), (2, 2, 3), (3, 2, 1)) + jobs("h_c24_stopmany", 10, 300, 3000) + [("h_c24_trim", [c, n]) for c in range(12) for n in (4, 3, 2, 1, 0)] + [("h_c24_trimshort", [c, n]) for c in range(12) for n in (5, 7)]
        + [("h_c24_trimlong", [c, n]) for c in range(12) for n in (30, 300)] + [("h_c24_stem", [i, n]) for i in range(18) for n in (5, 3, 2, 1, 0)] + [("h_c24_names", []), ("h_c24_default", [])] + jobs("h_c24_fn", 3, 2, 1, 0) + [("h_c24_own", [n, s]) for n, s in ((5, 3), (3, 3), (3, 6), (2, 17))]
        + blocks("h_c24_stopchar", 256) + blocks("h_c24_anyname", 256),
    deep=jobs("h_c24_stop", (3, 2, 2), (2, 3, 2), (4, 1, 1)) + jobs("h_c24_stopmany", 30000) + [("h_c24_trim", [c, 5]) for c in range(12)] + [("h_c24_trimshort", [c, 8]) for c in range(12)] + [("h_c24_stem", [i, 6]) for i in range(18)] + [("h_c24_own", [6, 3])], reach=list(range(1, 10)),
    bounds="stop-word filters: every list of up to 3 words and every token of up to 3 characters out of 8 (combinations as in the jobs), " + ALLU + " in words and tokens, lists of 3,000 (30,000) words; trimmers for 12 character classes: every token of up to 4 (thorough: 5) characters out of 20, up to 7 (8) out of 8, runs of 300; all 18 Snowball algorithms on tokens of up to 5 (6) of 8 letters; names; function stages; a language put together from them; Default and new of 17 languages",
    outside="other character classes; longer arbitrary lists and tokens")
LANGS25 = ["ar", "zh", "da", "du", "fi", "fr", "de", "hu", "it", "ja", "ko", "no", "pt", "ro", "ru", "es", "sv", "tr"]
def on(s, k): return s and ((k + 1) >> (s - 1) & 1 if s <= 5 else not (k + 1) >> (s - 6) & 1)
PAIRS25 = [(s, k) for s in range(1, 11) for k in range(18) if LANGS25[k] not in ("zh", "ja") and on(s, k)] + [(12, k) for k in range(18) if LANGS25[k] not in ("zh", "ja")]
def blocks25(s, k): return [(f, [s] + a[:2]) for f, a in blocks("h_c25_char", k)]
ENGLISH25 = list(range(11)) + [12]
PROPS["C25"] = dict(
    jobs=[("h_c25_code", [s, n]) for s in range(13) for n in (3, 2, 1, 0)] + [("h_c25_name", [s]) for s in range(13)] + [("h_c25_english", [s, n, h]) for s in ENGLISH25 for n, h in ((4, 0), (3, 1), (0, 0))]
        + [("h_c25_lang", [s, k, n, i]) for s, k in PAIRS25 for n, i in ((3, 0), (1, 1))] + [("h_c25_blocks", [s, 4]) for s in ENGLISH25] + [j for s in (0, 12) for j in blocks25(s, 256)],
    deep=[("h_c25_english", [s, 5, 0]) for s in ENGLISH25] + [j for s in range(1, 11) for j in blocks25(s, 256)] + [("h_c25_lang", [s, k, n, i]) for s, k in PAIRS25 for n, i in ((4, 0), (2, 1))], reach=list(range(1, 7)),
    bounds="13 sets of language features: none, all (one by one, and by `languages`), and ten in which every language occurs without every other one; look-ups by every code of up to 3 of 24 letters and by every name; English indexes of texts of up to 4 (thorough: 5) of 8 characters, tokens in every enabled language of texts of up to 3 (4) of 8 and indexes of texts of up to 1 (2), " + ALLU + " in English texts, each compared with the build that has all features",
    outside="other feature sets; Chinese and Japanese text (their look-ups are included, with stand-ins for the segmenters)")
PROPS["C26"] = dict(
    jobs=[("h_c26_alike", [k, o, m, n]) for k, ns in ((0, (1, 0)), (1, (1,)), (2, (2, 1)), (3, (2, 1, 0))) for o in range(3) for m in range(4) for n in ns]
        + [("h_c26_damaged", [k, o, a, 16]) for k, l in ((0, 480), (1, 128), (2, 224), (3, 96)) for o in range(4) for a in range(0, l, 16)],
    deep=[("h_c26_alike", [k, o, m, n]) for k, n in ((0, 2), (1, 2), (2, 3), (3, 3)) for o in range(3) for m in range(4)], reach=[1, 2, 3, 4],
    bounds="indexes, stores, inverted indexes and search configurations with names and texts of up to 1 (stores, indexes) or 2 (thorough: 2, 3) characters out of 6, written in 3 orders of members, 3 kinds of white space, 3 of escapes and 3 of numerals, read from a string, bytes, a reader and a serde_json::Value; one text of each kind with every byte replaced by every byte, every byte inserted at every place, every byte lost, and cut off at every place", outside="other changes to the text; other ways to read; what add_doc and remove_doc do with an index or store whose members contradict each other")
NOT_APPLICABLE = []
