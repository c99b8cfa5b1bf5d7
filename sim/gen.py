"""Documents: creole, HTML and ReST sources that exercise every construct.

A small shared vocabulary makes different documents of one run collide (same link
text with another target, same heading, same macro), and a per-document token makes
every leak from one conversion into another visible.
"""
import zlib


WORDS = ['alpha', 'beta', 'foo', 'bar', 'über', 'x', 'two words', 'Zoë', 'a.b', '1', 'データ', '&', '<i>', '"q"', "it's"]
TEXTS = ['home', 'docs', 'link', 'Home', 'foo', '/a', 'http://h.tld/a']
URLS = ['/a', '/b', 'http://h.tld/a', 'http://h.tld/b', 'https://h.tld/a b.png?x=1&y=2#z', 'mailto:a@h.tld', 'ftp://h.tld/f', '/a"b']
IMGS = ['/i.png', '/j.png', 'http://h.tld/i.png', '/im g.jpg', 'data:image/png;base64,AA', '/pics/', 'i', '/i.png?a=/b#c', '../i.png', 'i.PNG']
ODD = ['\t', 'a\tb', '\xa0', 'x\xa0y', '\x0c', '\x0b', '\u2028', '\r', '\x85', '\x1f', '\ufeff', '  ', 'ſ', 'İ', '\u0301', '😀', '\u202e', '\u200b']
HEADS = ['Intro', 'Usage', 'Intro', 'History', 'A & B']
MACROS = ['echo', 'echo2', 'html', 'pre', 'code', 'boom', 'none', 'nope', 'toc', 'konst', 'upper_case', 'bare']
EXTS = ['.py', 'py', '.html', '.js', 'txt', '.rst', 'ini', '.xyz', '', '.', 'x.py', 'bash', '.c', 'sql', '.PY', 'css', 'diff', '.json']
SOURCES = ['x = "ä中"', 'def f():\n    return 1  # über', '<p class="a">ü</p>', 'var a = \'é\'; // ™', '\tif x:\n\t\ty', 'SELECT * FROM t', '#!/bin/sh\necho "Zoë"', '', ' ', '\x00', '++ a\n-- b', 'class A:\n    """データ"""\n']
MESSAGES = ['boom in {}', '50% of {}', '%s %(text)s {}', '{{x}} {0}', '\\1 \\g<0> {}', 'über {} <b>', 'line\nbreak {}', '', '] {}', '[Error: {}', 'None', '{}' * 40]


def pick(r, seq):
    return seq[r.randrange(len(seq))]


def maybe(r, p):
    return r.random() < p


WILD = {'img4', 'link4', 'url2', 'esc2', 'quirk', 'preb2', 'mixed', 'code2', 'space', 'link2', 'dl', 'sect', 'empty', 'nestb'}  # of Creole and Html


class Doc:
    wild = True  # odd combinations

    def __init__(self, r, token='', size=None, macros=None, simple=False, swarm=True):
        self.r = r
        self.token = token
        self.n = 0
        self.macros = MACROS if macros is None else macros
        self.simple = simple
        # a random subset of the constructs per document ("swarm")
        self.on = {}
        self.swarm = swarm
        self.size = size or pick(r, [1, 1, 2, 2, 3, 4, 6])

    def odd(self, p):
        return self.wild and maybe(self.r, p)

    def allow(self, name):
        if not self.wild and name in WILD and not (name == 'link2' and isinstance(self, Creole)):
            return False
        if not self.swarm:
            return True
        if name not in self.on:
            self.on[name] = self.r.random() < 0.6
        return self.on[name]

    def tok(self):
        if not self.token:
            return pick(self.r, WORDS)
        self.n += 1
        return f'{self.token}{self.n}'

    def word(self):
        r = self.r
        return self.tok() if maybe(r, 0.35) else pick(r, WORDS)

    def charref(self):
        """A numeric character reference; the digits are often the same in decimal and hexadecimal ones."""
        r = self.r
        return pick(r, ['&#{};', '&#x{};', '&#X{};', '&#{}', '&#x{}']).format(pick(r, ['41', '65', '66', '97', '100', '228', '32', '160', '38', '60', '39', '3042', '8364', '0041', '12345', '1f600' if maybe(r, .1) else '34']))

    boost = None

    def favour(self, name):
        """Some documents consist of few constructs mostly."""
        if self.boost is None:
            return 1
        return 15 if zlib.crc32(f'{self.boost} {name}'.encode()) % 8 == 0 else 1

    def choose(self, table):
        opts = [(w * self.favour(name), f) for name, w, f in table if self.allow(name)]
        if not opts:
            opts = [(table[0][1], table[0][2])]
        x = self.r.random() * sum(w for w, f in opts)
        for w, f in opts:
            x -= w
            if x <= 0:
                return f()
        return opts[-1][1]()


class Creole(Doc):
    def inline(self, depth=0):
        r = self.r
        n = pick(r, [1, 1, 2, 3])
        return ' '.join(self.span(depth) for _ in range(n))

    def span(self, depth):
        if depth > 2:
            return self.word()
        i = lambda: self.inline(depth + 1)  # noqa: E731
        r = self.r
        return self.choose([
            ('word', 6, self.word),
            ('strong', 2, lambda: f'**{i()}**'),
            ('em', 2, lambda: f'//{i()}//'),
            ('mono', 1, lambda: f'##{i()}##'),
            ('sup', .5, lambda: f'^^{i()}^^'),
            ('sub', .5, lambda: f',,{i()},,'),
            ('under', .5, lambda: f'__{i()}__'),
            ('small', .5, lambda: f'--{i()}--'),
            ('del', .5, lambda: f'~~{i()}~~'),
            ('link', 2, lambda: f'[[{pick(r, URLS)}|{pick(r, TEXTS)}]]'),
            ('link2', 1, lambda: f'[[{pick(r, URLS)}]]'),
            ('link3', 1, lambda: f'[[{self.word()}|{self.word()} {{{{{pick(r, IMGS)}|{self.word()}}}}}]]'),
            ('link4', .6, lambda: pick(r, ['[[ {u} | {i} ]]', '[[{u}|]]', '[[{u}|{u}]]', '[[{u}|**{i}**]]', '[[a b|{i}]]', '[[{u}#x|{i}\n{i}]]', '[[~{u}|~{i}]]']).format(u=pick(r, URLS), i=self.word())),
            ('url', 1, lambda: f' {pick(r, ["", "~"])}{pick(r, URLS[2:4])} '),
            ('url2', .4, lambda: ' ' + pick(r, ['ftp://h.tld/a_b', 'irc://h.tld/x', 'file:///etc/x', 'news://n', 'http://h.tld/a//b//', 'gopher://x/y', 'http://h.tld/$x', 'http://h.tld/(a),']) + pick(r, [' ', '\n', ''])),
            ('img', 1, lambda: f'{{{{{pick(r, IMGS)}|{pick(r, TEXTS)}}}}}'),
            ('img2', 1, lambda: f'{{{{{pick(r, IMGS)}|{pick(r, TEXTS)}|{pick(r, ["90x160", "axb", "9x", " 10 x 20 "])}}}}}'),
            ('img4', .4, lambda: '{{' + pick(r, IMGS) + '|' + pick(r, ['|10x20', ' |90x160', '| ', self.word() + '|' + self.word() + '|1x2', '10x20']) + '}}'),
            ('img3', .5, lambda: f'{{{{{pick(r, IMGS)}}}}}'),
            ('pre', 1, lambda: '{{{' + self.word() + ' ** <b>}}}'),
            ('br', .7, lambda: '\\\\'),
            ('esc', .7, lambda: f'~{pick(r, "*/[#~a")}'),
            ('esc2', .4, lambda: pick(r, ['~**{}**', '~[[{}]]', '~{{{{{{{}}}}}}}', '~<<{}>>', '~{}', '{}~', '**{}~**', '~~{}'])
             .format(self.word())),
            ('quirk', .5, lambda: pick(r, ['**{}//{}**{}//', '//{}:// {}', '**{}\n{}**', '****', '////', '** {} **', '{}**{}**{}', '##{}##{}##', '{{{{{{{}}}}}}}}}}', '^^{},,{}^^{},,', '//{}//{}//{}//', '[[{}]]]]', '{{{{{}}}}}}}',
                                       '----{}', '--{}--{}--', '__{}_', ',,{}', '\\\\{}\\\\']).replace('{}', self.word())),
            ('open', .3, lambda: pick(r, ['**', '//', '[[', '{{', '<<', '}}}', '__', '|', '=', '~', '<<x', '>>', '<</html>>'])),
            ('ent', .4, lambda: pick(r, ['&auml;', '&#65;', '&x', '< >', self.charref()])),
            ('odd', .5, lambda: pick(r, ODD)),
            ('long', .1, lambda: self.word() * r.randrange(20, 60)),
            ('macro_tag', 1.2, self.macro_tag),
            ('macro_inline', 1.2, self.macro_inline),
        ])

    def macro_args(self):
        r = self.r
        return pick(r, ['', '', ' a=1', ' a="x y"', ' a=True', " b='q' a=2", f' a="{self.word()}"', ' a', ' a="', ' =1', ' depth=2', ' ext=".py"', ' ext=txt', ' text=1', ' a=1 b=2 c=3', " a='x' b=\"y z\" a=4", ' a=-1 b=1.5 c=None d=false e=true', ' a=http://h.tld/x?y=1', ' a=x,b=y', ' a = 1', ' a="x=y" b', "  a='it\\'s'", ' a=""', ' a=über ü=1', ' A=1 a=0', ' a=00 b=1e3'])

    def macro_name(self):
        return pick(self.r, self.macros) if self.macros else 'nope'

    def macro_tag(self):
        return f'<<{self.macro_name()}{self.macro_args()}{pick(self.r, [" /", "", "/"])}>>'

    def code_call(self):
        r = self.r
        x = pick(r, SOURCES)
        q = pick(r, ['"', '"', "'"])
        return f'<<code ext={q}{pick(r, EXTS)}{q}>>{x}<</code>>' if '\n' not in x and maybe(r, .6) else f'<<code ext={q}{pick(r, EXTS)}{q}>>\n{x}\n<</code>>'

    def macro_inline(self):
        n = self.macro_name()
        if n == 'code' and maybe(self.r, .7):
            return self.code_call()
        return f'<<{n}{self.macro_args()}>>{self.word()}<</{n}>>'

    def macro_block(self):
        r = self.r
        n = self.macro_name()
        body = pick(self.r, [self.word(), f'{self.word()}\n{self.word()}', '<p>x</p>', 'def f():\n    return 1', ''])
        if n == 'toc':
            return '<<toc>>'
        if n == 'code' and maybe(r, .8):
            return self.code_call()
        x = r.random()
        if x < .12:  # a macro within the text of another one, or of the same one
            m = pick(r, [n, self.macro_name()])
            body = f'{self.word()} <<{m}{self.macro_args()}>>{self.word()}<</{m}>>\n<<{self.macro_name()} />>'
        elif x < .2:
            return pick(r, [f'<< {n} {self.macro_args()} >>{body}<</ {n} >>', f'<<{n}>>{body}<</{n}>>{self.word()}', f'{self.word()}<<{n}>>\n{body}\n<</{n}>>\n{self.word()}',
                            f'<<{n} a=1\nb=2>>\n{body}\n<</{n}>>', f'<<{n}>>\n{body}', f'<</{n}>>\n{body}\n<<{n}>>', f'* <<{n}>>{body}<</{n}>>', f'|<<{n}>>{self.word()}<</{n}>>|{self.word()}|'])
        return f'<<{n}{self.macro_args()}>>\n{body}\n<</{n}>>'

    def heading(self):
        lv = self.r.randrange(1, 7 if maybe(self.r, .8) else 10)
        t = pick(self.r, HEADS) if maybe(self.r, .5) else self.word()
        if self.odd(.15):
            t = pick(self.r, [self.inline(1), '', '=', t + ' = ' + t, f'[[/a|{t}]]', self.macro_tag(), '{{/i.png|' + t + '}}', f'**{t}'])
        if not self.wild:
            return f'{"=" * lv} {t}{pick(self.r, ["", " " + "=" * lv, " ="])}'
        return f'{pick(self.r, ["", "", "", "", " "])}{"=" * lv}{pick(self.r, [" ", " ", " ", ""])}{t}{pick(self.r, ["", " " + "=" * lv, " =", "=" * (lv + 1) + "  "])}'

    def para(self):
        return '\n'.join(self.inline() for _ in range(pick(self.r, [1, 1, 2, 3])))

    def list(self):
        r = self.r
        lines, lv = [], 1
        kind = pick(r, '*#')
        wild = self.odd(.25)
        for i in range(r.randrange(1, 5 if not wild else 9)):
            bullets = kind * lv
            if wild and maybe(r, .3) and lines:
                bullets = bullets[:-1] + pick(r, '*#')
            lines.append(f'{pick(r, ["", " ", chr(9)]) if wild else ""}{bullets}{pick(r, [" ", " ", ""]) if wild else " "}{self.inline(1) if not (wild and maybe(r, .1)) else ""}')
            if wild and maybe(r, .1):
                lines.append(pick(r, [self.word(), '{{{' + self.word() + '}}}', '  ' + self.word(), '|' + self.word() + '|', '= ' + self.word()]))
            lv = max(1, min(6 if wild else 3, lv + pick(r, [-1, 0, 0, 1] if not wild else [-2, -1, 0, 1, 1, 2])))
            if maybe(r, .2):
                kind = pick(r, '*#')
        return '\n'.join(lines)

    def table(self):
        r = self.r
        cols = r.randrange(1, 4)
        rows = []
        if maybe(r, .5):
            rows.append('|' + '|'.join('=' + (self.word() if maybe(r, .6) else self.inline(2)) for _ in range(cols)) + pick(r, ['|', '|', '']))
        for _ in range(r.randrange(1, 3)):
            rows.append('|' + '|'.join(self.inline(2) for _ in range(cols)) + pick(r, ['|', '']))
        if self.odd(.2):
            rows.append(pick(r, ['||', '|', '|=' + self.word(), '|=|=' + self.word() + '|', '|' + self.word() + '|=' + self.inline(2) + '|' + self.word(), '| {{{a|b}}} |{{/i.png|x|1x2}}|', '|[[/a|b]]|', '  |  ' + self.word() + '  |  ',
                                 '|' + self.word() + '\\\\' + self.word() + '|', '|~|' + self.word() + '|', '|http://h.tld/a|' + self.word()]))
        return '\n'.join(rows)

    def block(self):
        r = self.r
        return self.choose([
            ('para', 4, self.para),
            ('head', 2, self.heading),
            ('list', 2, self.list),
            ('table', 1.5, self.table),
            ('hr', .5, lambda: pick(r, ['----', '----', '  ----  ', '-----', '---- ' + self.word()]) if self.wild else '----'),
            ('preb', 1, lambda: '{{{\n' + pick(r, [self.word(), '~}}}', '#!python\nx = 1', '**a**\n\n<b>']) + '\n}}}'),
            ('preb2', .5, lambda: pick(r, ['{{{\n{i}\n}}} {i}', ' {{{\n{i}\n}}}', '{{{\n{i}', '{{{\n  {i}\n\t{i}\n }}}\n}}}', '{{{ \n\n{i}\n\n}}}', '{{{\n}}}', '{i}\n{{{\n{i}\n}}}\n{i}', '{{{\n#!\n{i}\n}}}', '{{{\n<<echo>>{i}<</echo>>\n}}}']).replace('{i}', self.word())),
            ('mixed', .6, lambda: '\n'.join(pick(r, [self.word, self.heading, self.list, self.table, lambda: '----', lambda: '   ', lambda: '{{{\nx\n}}}'])() for _ in range(r.randrange(2, 5)))),
            ('macro_block', 1.5, self.macro_block),
            ('toc', 1.2, lambda: pick(r, ['<<toc>>', '<<toc depth=2>>', '<<toc /> >', '<<toc a>>']) if 'toc' in self.macros else self.heading()),
        ])

    def make(self):
        sep = pick(self.r, ['\n\n', '\n\n', '\n', '\r\n\r\n', '\n\n\n'])
        text = sep.join(self.block() for _ in range(self.size))
        if self.token and self.token not in text:
            text += f'{sep}{self.tok()}'
        return text


class Html(Doc):
    """HTML the way people paste it."""

    def __init__(self, *a, attrs_rich=True, broken=True, **k):
        super().__init__(*a, **k)
        self.broken = broken

    def tag(self, name, inner, attrs=''):
        end = f'</{name}>'
        if self.broken and self.allow('broken') and maybe(self.r, .02):
            end = pick(self.r, ['', '</b>', '</div>', '</p>'])
        return f'<{name}{attrs}>{inner}{end}'

    def text(self):
        w = self.word()
        return w.replace('&', '&amp;').replace('<', '&lt;')

    def attrs(self):
        r = self.r
        items = [('class', 'c1'), ('id', self.tok()), ('title', self.word().replace('"', '').replace('<', '')), ('style', 'a:b'), ('data-x', '1'), ('lang', 'de'), ('dir', 'ltr')]
        r.shuffle(items)
        if self.odd(.15):
            return pick(r, [" class='a b' id=x", ' CLASS="Up" Title=\'"\'', ' hidden', ' a="&lt;b&gt;&amp;" b="&auml;"', ' x="1" x="2"', ' a=""', ' title="a>b"', '\n  id="n"\n', ' on-x:y="z"', ' style="a: b; c: \'d\'"', ' a=1>'[:4]])
        return ''.join(f' {k}="{v}"' for k, v in items[:r.randrange(0, 5)])

    def inline(self, depth=0):
        return pick(self.r, [' ', ' ', '', '\n']).join(self.span(depth) for _ in range(pick(self.r, [1, 1, 2, 3])))

    def img(self):
        r = self.r
        a = f' src="{pick(r, IMGS + [""])}"'
        if maybe(r, .02):
            a = ''
        if maybe(r, .6):
            a += f' alt="{pick(r, TEXTS)}"'
        if maybe(r, .5):
            a += f' title="{pick(r, TEXTS)}"'
        if maybe(r, .3):
            a += ' width="10" height="20"'
        return f'<img{a}{pick(r, [" /", ""])}>'

    def link(self):
        r = self.r
        text = pick(r, TEXTS) if maybe(r, .7) else self.inline(2)
        if maybe(r, .04):
            return f'<a name="x">{text}</a>'
        url = pick(r, URLS).replace('"', '')
        t = f' title="{self.word()}"'.replace('<i>', '') if maybe(r, .2) else ''
        return f'<a href="{url}"{t}>{text}</a>'

    def span(self, depth):
        if depth > 2:
            return self.text()
        r = self.r
        i = lambda: self.inline(depth + 1)  # noqa: E731
        return self.choose([
            ('text', 6, self.text),
            ('strong', 1.5, lambda: self.tag(pick(r, ['strong', 'b', 'big']), i())),
            ('em', 1.5, lambda: self.tag(pick(r, ['em', 'i']), i())),
            ('tt', 1, lambda: self.tag('tt', i())),
            ('codei', 1, lambda: self.tag('code', self.text())),
            ('code2', .5, lambda: pick(r, ['<code>a`{}</code>', '<code>``</code>', '<code> {} </code>', '<code>{}<b>{}</b></code>', '<code></code>', '<tt>`{}`</tt>', '<code>a\nb</code>', '<code>{}&lt;&amp;</code>', '<kbd>{}</kbd>', '<code>{}<br />{}</code>']).replace('{}', self.text())),
            ('space', .5, lambda: pick(r, ['<b> {} </b>', '<i>{} </i>{}', '{}<b>{}</b>{}', '<b></b>', '<b> </b>', '<em><strong>{}</strong></em>', '<b><b>{}</b></b>', '<b>{}</b><i>{}</i>', '<b>{}\n{}</b>', '{}&nbsp;&nbsp;{}', '<b>{}<br />{}</b>', '{}  \n  {}', '<i>*{}*</i>', '**{}**', '_{}_', '`{}`', '{}_', '|{}|', '<sup>{}<sub>{}</sub></sup>',
                                       '<del><ins>{}</ins></del>', '<big><small>{}</small></big>', '\\{}', '# {}', '- {}', '<B>{}</B>', '<EM>{}</em>']).replace('{}', self.text())),
            ('link2', .6, lambda: pick(r, ['<a href="{u}"><img src="/i.png" alt="{}" /></a>', '<a href="{u}"></a>', '<a href="{u}">{u}</a>', '<a href="{u}"> {} </a>', '<a href="{u}"><b>{}</b></a>', '<a href="">{}</a>', '<a>{}</a>', '<a href="{u}">{}\n{}</a>', '<a id="x" href="{u}" class="y" target="_blank" title="{}">{}</a>',
                                       "<a href='{u}'>{}</a>", '<a href={u}>{}</a>', '<A HREF="{u}">{}</A>', '<b><a href="{u}">{}</a></b>', '<a href="{u}">{}<br />{}</a>', '<a href="/&lt;x&gt;">{}</a>', '<a href="{u}">[{}|{}]</a>']).replace('{u}', pick(r, URLS).replace('"', '')).replace('{}', self.text())),
            ('supsub', .7, lambda: self.tag(pick(r, ['sup', 'sub']), i())),
            ('u', .7, lambda: self.tag(pick(r, ['u', 'small', 'del', 'strike', 'cite', 'ins']), i())),
            ('span', .7, lambda: self.tag('span', i(), self.attrs())),
            ('link', 2, self.link),
            ('img', 1.2, self.img),
            ('br', .8, lambda: pick(r, ['<br />', '<br>'])),
            ('ent', 1, lambda: pick(r, ['&auml;', '&nbsp;', '&lt;', '&#65;', '&#x42;', '&bogus;', '&amp;', self.charref(), self.charref() + self.charref()])),
            ('unk', 1, lambda: self.tag(pick(r, ['abbr', 'font', 'x-y', 'form', 'acronym']), i(), self.attrs())),
            ('unk1', .5, lambda: f'<{pick(r, ["input", "unk", "hr"])}{self.attrs()} />'),
            ('prei', .7, lambda: f'<pre>{self.text()}</pre>'),
            ('comment', .3, lambda: f'<!-- {self.word()} -->'),
            ('odd', .5, lambda: pick(r, ODD)),
            ('decl', .15, lambda: pick(r, ['<!DOCTYPE html>', '<?xml x?>', '<![CDATA[a<b]]>', '</x>', '<', '<1>', '<a', '&#0;', '&#1114112;', '&copy', '<B>x</B>', '<br/ >'])),
            ('long', .1, lambda: self.text() * r.randrange(20, 60)),
        ])

    def list(self, level=0):
        r = self.r
        k = pick(r, ['ul', 'ol'])
        items = []
        for _ in range(r.randrange(1, 4)):
            inner = self.inline(1)
            if level < 2 and maybe(r, .3):
                inner += self.list(level + 1)
            if self.odd(.08):
                inner = pick(r, ['', ' ', f'<p>{inner}</p>', f'<p>{inner}</p><p>{self.text()}</p>', f'{inner}<br />{self.text()}', f'<pre>{self.text()}</pre>', f'<h2>{self.text()}</h2>', f'{self.list(2)}{self.text()}', f'<table><tr><td>{self.text()}</td></tr></table>', f'\n  {inner}\n  '])
            items.append(self.tag('li', inner))
        if self.odd(.05):
            items.append(pick(r, [self.text(), self.list(2), '<br />', f'<p>{self.text()}</p>', f'<li>{self.text()}', f'</{k}><li>{self.text()}</li>']))
        return self.tag(k, pick(r, ['', '\n']).join(items))

    def table(self):
        r = self.r
        cols = r.randrange(1, 4)
        rows = []
        if maybe(r, .5):
            rows.append(self.tag('tr', ''.join(self.tag('th', self.inline(2)) for _ in range(cols))))
        for _ in range(r.randrange(1, 3)):
            rows.append(self.tag('tr', ''.join(self.tag('td', self.inline(2)) for _ in range(cols))))
        if self.odd(.15):
            t = self.text()
            rows.append(pick(r, [f'<tr><td>{t}</td></tr>', '<tr></tr>', f'<tr><td></td><td>{t}</td><td> </td></tr>', f'<tr><td colspan="2">{t}</td></tr>', f'<tr><th>{t}</th><td>{t}</td></tr>', f'<td>{t}</td>', f'<tr><td><p>{t}</p><p>{t}</p></td></tr>',
                                 f'<tr><td>{t}<br />{t}</td></tr>', f'<tr><td><ul><li>{t}</li></ul></td></tr>', f'<tr><td><pre>{t}</pre></td></tr>', f'<tr><td>{t}|{t}</td></tr>', f'<tr><td><table><tr><td>{t}</td></tr></table></td></tr>', f'<tr><td>{t}\n\n{t}</td></tr>', f'<caption>{t}</caption>',
                                 f'<tr><td>{t}<td>{t}</tr>', f'<tr class="x"><td width="1">{t}</td></tr>', t]))
        body = '\n'.join(rows)
        if self.odd(.05):
            body = f'<thead>{body}</thead><tfoot></tfoot>'
        if maybe(r, .3):
            body = f'<tbody>{body}</tbody>'
        return self.tag('table', body)

    def block(self):
        r = self.r
        return self.choose([
            ('p', 4, lambda: self.tag('p', self.inline(), self.attrs() if maybe(r, .2) else '')),
            ('h', 2, lambda: self.tag(f'h{r.randrange(1, 7 if maybe(r, .8) else 10)}', pick(r, HEADS).replace('&', '&amp;') if maybe(r, .5) else self.inline(2))),
            ('list', 2, self.list),
            ('table', 1.5, self.table),
            ('hr', .5, lambda: '<hr />'),
            ('preb', 1, lambda: f'\n<pre>\n{self.text()}\n  {self.text()} &lt;b&gt;\n</pre>\n'),
            ('prec', .9, lambda: pick(r, ['<pre><code{c}>\n{t}\n</code></pre>', '<pre><code{c}>{t}</code></pre>', '<p>{t}</p><pre><code{c}>{t}</code></pre>', '<pre><code{c}>\n{t}\n  {t}</code></pre>']).replace('{t}', self.text())
             .replace('{c}', pick(r, ['', f' class="language-{pick(r, ["python", "html", "js"])}"', ' class="x"']))),
            ('div', 1, lambda: self.tag('div', self.inline() if maybe(r, .5) else self.block(), self.attrs())),
            ('plain', 1, self.text),
            ('script', .3, lambda: f'<script>var a="<b>{self.tok()}</b>";</script>'),
            ('bq', .4, lambda: self.tag('blockquote', self.inline())),
            ('preb2', .4, lambda: pick(r, ['<pre></pre>', '<pre> </pre>', '<pre>{}<b>{}</b></pre>', '<PRE>{}</PRE>', '<pre class="x">{}</pre>', '<pre>\n\n{}\n\n\n</pre>{}', '{}<pre>{}\n{}</pre>{}', '<p><pre>\n{}\n</pre></p>', '<pre>{}</pre><pre>{}</pre>', '<pre>{}', '<div><pre>\n{}\n</pre></div>', '<pre>\t{}\r\n{}</pre>',
                                       '<pre>&lt;/pre&gt;</pre>', '<pre><!-- {} --></pre>', '\n<pre>\n<<{}>>\n}}}\n</pre>\n', '<blockdata type="pre" id="0" />', '<inlinedata type="pre" id="7" />']).replace('{}', self.text())),
            ('dl', .4, lambda: f'<dl><dt>{self.inline(1)}</dt><dd>{self.inline(1)}</dd><dt>{self.text()}</dt></dl>'),
            ('sect', .4, lambda: self.tag(pick(r, ['address', 'center', 'fieldset', 'form', 'noscript', 'section', 'article', 'main', 'figure', 'details', 'legend', 'label', 'button', 'iframe', 'object', 'nav']), pick(r, [self.inline, self.block])(), self.attrs())),
            ('empty', .3, lambda: pick(r, ['<p></p>', '<p> </p>', '<h1></h1>', '<ul></ul>', '<table></table>', '<div></div>', '<p><br /></p>', '<br /><br />', '<p>&nbsp;</p>', '<ol><li></li></ol>', '<p/>', '<hr/><hr>', '<blockquote></blockquote>', '<tbody></tbody>', '</p>', '</ul>'])),
            ('nestb', .5, lambda: pick(r, ['<p>{}<p>{}</p>', '<h2><b>{}</b></h2>', '<h2><a href="/a">{}</a></h2>', '<h1>{}<br />{}</h1>', '<p><h2>{}</h2></p>', '<div><div><div>{}</div></div></div>', '<b><p>{}</p></b>', '<blockquote><p>{}</p><blockquote>{}</blockquote></blockquote>', '<h3><img src="/i.png" /></h3>', '{}\n\n{}', '{}<p>{}</p>{}', '<li>{}</li>',
                                       '<p>{}</p>\n<!-- {} -->\n<p>{}</p>', '<!-- {}\n{} -->', '<style>b { x: "{}" }</style>', '<body><p>{}</p></body>', '<html><head><title>{}</title></head><body>{}</body></html>', '<p align=center>{}', '<h7>{}</h7>', '<a name="x"></a><h2>{}</h2>']).replace('{}', self.text())),
        ])

    def make(self):
        text = pick(self.r, ['\n', '', '\n\n']).join(self.block() for _ in range(self.size))
        if self.token and self.token not in text:
            text += f'<p>{self.tok()}</p>'
        return text


class Rest(Doc):
    """ReST; no role definitions (see known_findings.json)."""

    def word(self):
        r = self.r
        return self.tok() if maybe(r, 0.4) else pick(r, ['alpha', 'beta', 'foo', 'Zoë', 'x', 'two words', 'データ', '<i>', '&'])

    def inline(self, depth=0):
        return ' '.join(self.span() for _ in range(pick(self.r, [1, 2, 3])))

    def span(self):
        r = self.r
        return self.choose([
            ('word', 6, self.word),
            ('strong', 1, lambda: f'**{self.word()}**'),
            ('em', 1, lambda: f'*{self.word()}*'),
            ('lit', 1, lambda: f'``{self.word()}``'),
            ('link', 1.5, lambda: f'`{pick(r, TEXTS[:5])} <{pick(r, URLS[2:4])}>`_'),
            ('ref', .7, lambda: f'`{pick(r, TEXTS[:5])}`_'),
            ('anon', .5, lambda: f'`{self.word()} <{pick(r, URLS[2:4])}>`__'),
            ('sub', .5, lambda: '|img|'),
            ('url', .5, lambda: 'http://h.tld/a'),
            ('role', .5, lambda: pick(r, [':sub:`x`', ':sup:`x`', ':strong:`x`', ':nope:`x`', ':raw:`<b>x</b>`', '`plain`'])),
            ('foot', .4, lambda: pick(r, ['[1]_', '[#a]_', '[*]_'])),
            ('odd', .4, lambda: pick(r, ODD)),
            ('bad', .3, lambda: pick(r, ['*open', '``open', '`open', '|', '_', '\\'])),
        ])

    def under(self):
        t = pick(self.r, HEADS) if maybe(self.r, .5) else self.word()
        c = pick(self.r, '=-`\'~')
        n = len(t.encode()) + 2
        if maybe(self.r, .05):
            n = 2
        if maybe(self.r, .3):
            return f'{c * n}\n{t}\n{c * n}'
        return f'{t}\n{c * n}'

    def block(self):
        r = self.r
        return self.choose([
            ('p', 4, self.inline),
            ('h', 2, self.under),
            ('ul', 1.5, lambda: '\n'.join(f'- {self.inline()}' for _ in range(r.randrange(1, 4)))),
            ('ol', 1, lambda: '\n'.join(f'#. {self.inline()}' for _ in range(r.randrange(1, 4)))),
            ('nest', .7, lambda: f'- {self.inline()}\n\n  - {self.inline()}\n\n  {self.inline()}'),
            ('lit', 1, lambda: f'{self.word()}::\n\n  {self.word()}\n   <b> & x'),
            ('table', 1, lambda: '+-----+-----+\n| a   | b   |\n+=====+=====+\n| 1   | 2   |\n+-----+-----+'),
            ('img', 1, lambda: f'.. image:: {pick(r, IMGS[:3])}{pick(r, ["", chr(10) + "   :align: right", chr(10) + "   :alt: " + self.word(), chr(10) + "   :target: http://h.tld/t"])}'),
            ('fig', .7, lambda: f'.. figure:: {pick(r, IMGS[:3])}\n   :align: {pick(r, ["left", "right", "center"])}\n\n   {self.inline()}'),
            ('subdef', .7, lambda: f'.. |img| image:: {pick(r, IMGS[:3])}'),
            ('target', .7, lambda: f'.. _{pick(r, TEXTS[:5])}: {pick(r, URLS[2:4])}'),
            ('field', .7, lambda: f':{pick(r, ["author", "homepage", "date"])}: {self.inline()}'),
            ('def', .5, lambda: f'{self.word()}\n  {self.inline()}'),
            ('quote', .5, lambda: f'  {self.inline()}'),
            ('hr', .3, lambda: '----'),
            ('note', .4, lambda: f'.. note:: {self.inline()}'),
            ('unk', .3, lambda: f'.. nope:: {self.word()}\n\n   x'),
            ('raw', .3, lambda: '.. raw:: html\n\n   <b>raw</b>'),
            ('code', .4, lambda: '.. code:: python\n\n   x = 1'),
            ('contents', .4, lambda: '.. contents::'),
            ('fn', .4, lambda: '.. [1] note\n.. [#a] note'),
            ('comment', .2, lambda: '.. comment'),
            ('line', .3, lambda: f'| {self.inline()}\n|   {self.word()}\n| {self.word()}'),
            ('opts', .3, lambda: f'-a  {self.word()}\n--long=x  {self.word()}'),
            ('ctab', .3, lambda: pick(r, ['.. csv-table:: t\n   :header: a, b\n\n   1, 2', '.. list-table::\n\n   * - {i}\n     - b', '.. table:: {i}\n\n   == ==\n   a  b\n   == ==\n   1  2\n   == ==']).replace('{i}', self.word())),
            ('body', .4, lambda: f'.. {pick(r, ["topic:: T", "sidebar:: S", "epigraph::", "container:: c", "class:: k", "rubric:: R", "parsed-literal::", "compound::", "pull-quote::", "warning::", "admonition:: A", "header::", "footer::", "meta::", "title:: X", "sectnum::", "target-notes::"])}\n\n   {self.inline()}'),
            ('cite', .3, lambda: f'.. [CIT1] {self.word()}\n\n[CIT1]_ {self.word()}'),
            ('repl', .3, lambda: f'.. |rep| replace:: {self.word()}\n\n|rep| x'),
            ('enum', .3, lambda: f'{pick(r, ["1.", "a)", "(i)", "A.", "5."])} {self.inline()}\n{pick(r, ["2.", "b)", "(ii)", "B."])} {self.word()}'),
            ('ptar', .3, lambda: f'__ http://h.tld/an\n\n{self.word()}__ and `{self.word()}`__'),
            ('deep', .3, lambda: f'- {self.word()}\n\n  1. {self.word()}\n\n     {self.word()}::\n\n       lit\n\n  :f: {self.word()}\n\n* other'),
            ('doct', .2, lambda: '>>> 1\n1'),
        ])

    def make(self):
        text = '\n\n'.join(self.block() for _ in range(self.size))
        if self.token and self.token not in text:
            text += f'\n\n{self.tok()}'
        return text


def doc(r, lang, token='', size=None, boost=None, **k):
    d = {'creole': Creole, 'html': Html, 'rest': Rest}[lang](r, token, size, **k)
    d.boost = boost
    return d.make()


# ---------------------------------------------------------------------------
# operations

FNS = ['creole2html'] * 6 + ['html2creole', 'html2rest', 'html2textile', 'html2markdown'] * 3 + ['rest2html'] * 2
HTML_FNS = ['html2creole', 'html2rest', 'html2textile', 'html2markdown']
LANG = {'creole2html': 'creole', 'rest2html': 'rest', 'pypi_rest2html': 'rest'}
UNKNOWN = ['raise', 'transparent', 'html_macro', 'preformat', 'escape']


def behaviours(r, names=None, rich=True):
    """A macro container."""
    table = {
        'echo': {'b': 'echo'}, 'echo2': {'b': 'echo'}, 'html': {'b': 'html'}, 'pre': {'b': 'pre'}, 'code': {'b': 'code'},
        'boom': {'b': 'raise', 'exc': pick(r, ['ValueError', 'KeyError', 'AttributeError', 'TypeError', 'RuntimeError', 'AssertionError', 'StopIteration', 'OSError', 'Unprintable', 'UnprintableType']), 'msg': pick(r, MESSAGES).replace('{}', 'boom')},
        'none': {'b': 'ret', 'v': pick(r, [None, 1, [], True, {'bytes': 'x'}])},
        'konst': {'b': 'const', 'v': pick(r, ['K', '<b>K</b>', '', '<<toc>>', '\n'])},
        'upper_case': {'b': 'upper'}, 'bare': {'b': 'bare', 'kind': pick(r, ['lambda', 'exec', 'partial', 'builtin', 'class', 'gone', 'edited%d' % r.randrange(9), 'instance'])},
    }
    macros = {k: v for k, v in table.items() if maybe(r, .75)}
    if maybe(r, .08):
        macros['toc'] = {'b': 'toc'}
    return {'kind': pick(r, ['dict', 'dict', 'ns', 'slots', 'class', 'dictsub']), 'macros': macros}


def gen_opts(r, fn, env):
    o = {}
    if fn == 'creole2html':
        if env.get('macros') and maybe(r, .8):
            o['macros'] = pick(r, sorted(env['macros']))
        elif maybe(r, .3):
            o['macros'] = behaviours(r)
        if maybe(r, .2):
            o['blog_line_breaks'] = False
        if env.get('rules') and maybe(r, .25):
            o['block_rules'] = pick(r, sorted(env['rules']))
        if maybe(r, .2):
            o['strict'] = True
        if maybe(r, .35):
            o['verbose'] = pick(r, [0, 1, 2])
        if maybe(r, .06):
            o['debug'] = True
    elif fn in HTML_FNS:
        if maybe(r, .5):
            o['unknown_emit'] = pick(r, UNKNOWN)
        if fn == 'html2creole' and maybe(r, .2):
            o['strict'] = True
        if maybe(r, .06):
            o['debug'] = True
    elif fn == 'rest2html':
        if maybe(r, .3):
            o['rest'] = pick(r, [{'report_level': 5}, {'halt_level': 2}, {'doctitle_xform': True}, {'initial_header_level': 2}])
    return o


def gen_op(r, env, token='', fn=None, size=None, **k):
    fn = fn or pick(r, FNS)
    return {'fn': fn, 'src': doc(r, LANG.get(fn, 'html'), token, size, **k), 'opts': gen_opts(r, fn, env)}


def themed_op(r, env, token=''):
    """creole2html with calls of one macro in the first place."""
    m = pick(r, ['code', 'code', 'code', 'code', 'toc', 'html', 'pre', 'echo', 'boom', 'nope'])
    op = gen_op(r, env, token, fn='creole2html', size=pick(r, [1, 1, 2]), macros=[m])
    c = Creole(r, token + 't', 1, macros=[m])
    for _ in range(pick(r, [1, 1, 1, 2, 3])):
        call = c.code_call() if m == 'code' else pick(r, [c.macro_block, c.macro_inline, c.macro_tag])()
        op['src'] = f'{call}\n\n{op["src"]}' if maybe(r, .5) else f'{op["src"]}\n\n{call}'
    if m in ('code', 'html', 'pre', 'echo', 'boom'):
        spec = env['macros'][op['opts']['macros']] if isinstance(op['opts'].get('macros'), str) else op['opts'].get('macros')
        if spec is not None and m not in spec['macros']:
            spec['macros'][m] = {'b': 'raise', 'exc': 'ValueError', 'msg': 'boom'} if m == 'boom' else {'b': m}
    return op


def sibling(r, op, env):
    """An operation easily mistaken for `op`."""
    op = {'fn': op['fn'], 'src': op['src'], 'opts': dict(op['opts'])}
    k = pick(r, ['same', 'opts', 'opts', 'char', 'char', 'append', 'prefix', 'fn', 'newline', 'case', 'swap'])
    s = op['src']
    if k == 'opts':
        op['opts'] = gen_opts(r, op['fn'], env)
    elif k == 'char' and s:
        i = r.randrange(len(s))
        op['src'] = s[:i] + pick(r, 'xy1 ') + s[i + 1:]
    elif k == 'append':
        op['src'] = s + pick(r, [' x', '\n\nx', '\n', ' '])
    elif k == 'prefix' and s:
        op['src'] = s[:r.randrange(len(s)) + 1]
    elif k == 'fn' and op['fn'] in HTML_FNS:
        op['fn'] = pick(r, HTML_FNS)
        op['opts'] = {a: b for a, b in op['opts'].items() if a != 'strict'}
    elif k == 'newline':
        op['src'] = s.replace('\n', '\r\n')
    elif k == 'case':
        op['src'] = s.swapcase()
    elif k == 'swap':
        a, b = pick(r, URLS), pick(r, URLS)
        op['src'] = s.replace(a, b)
    return op


def gen_env(r):
    env = {}
    if maybe(r, .8):
        env['macros'] = {f'm{i}': behaviours(r) for i in range(pick(r, [1, 1, 2]))}
    if maybe(r, .4):
        env['rules'] = {}
        for i in range(pick(r, [1, 2])):
            env['rules'][f'r{i}'] = {'blog': maybe(r, .5), 'drop': pick(r, [[], [], ['table'], ['list', 'table'], ['head']])}
    return env
