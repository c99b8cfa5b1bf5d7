"""C11: untrusted ReST on the simulated file system."""
import os
import re

from sim import core, gen, shrink, simfs
from sim.gen import maybe, pick
from sim.scenario import Scenario, Violation, register

CWD = '/home/u/site'
NAMES = ['secret.txt', '/etc/passwd', '../secret.txt', 'sub/data.csv', '/home/u/site/secret.txt', 'i.png', '/tmp/x.rst', 'x.html', '~/secret.txt', 'sub', 'data.csv', 'über.txt']
URLS = ['file:///etc/passwd', 'file:secret.txt', 'http://h.tld/x', 'https://h.tld/x.csv', 'ftp://h.tld/x', 'file:///home/u/site/secret.txt', 'http://127.0.0.1:1/x', 'data:text/html,<xraw0>']
BASENAMES = {os.path.basename(n) for n in NAMES}
FNS = ['rest2html', 'rest2html', 'pypi_rest2html']


# documents of trusted authors, converted with other settings before
TRUSTED = ['a', '.. raw:: html\n\n   <b>x</b>', '.. role:: mine(raw)\n   :format: html\n\n:mine:`<i>`', '=====', '.. nope::', '.. csv-table::\n\n   a,b', '.. image:: a.png']
SETTINGS = [{'raw_enabled': True}, {'file_insertion_enabled': True}, {'raw_enabled': True, 'file_insertion_enabled': True}, {'raw_enabled': True, 'halt_level': 1}, {'raw_enabled': 1, 'report_level': 5}]


def run_rest(fn, src, how, before=()):
    import creole.rest_tools.clean_writer
    import creole.rest_tools.pypi_rest2html
    for text, settings in before:
        try:
            creole.rest_tools.clean_writer.rest2html(text, **settings)
        except Exception:
            pass
    f = getattr({'rest2html': creole.rest_tools.clean_writer, 'pypi_rest2html': creole.rest_tools.pypi_rest2html}[fn], fn)
    if how == 'kwargs':
        return f(src, enable_exit_status=None) if fn == 'rest2html' else f(src, output_encoding='unicode')
    return f(src)


class Doc(gen.Rest):
    raws = 0

    def raw(self):
        self.raws += 1
        return pick(self.r, [f'<xraw{self.raws} onload="x">', f'<script><xraw{self.raws}></script>', f'text <xraw{self.raws}/>', f'<!-- --><xraw{self.raws}>'])

    def picture(self, n):
        """An image or figure with any of its options."""
        r = self.r
        o = [f':align: {pick(r, ["left", "right", "center", "top", "middle", "bottom"])}', ':height: 10', ':width: 10px', ':width: 50%', ':scale: 50', ':scale: 200 %', ':alt: x', ':alt:', ':target: x_', f':target: {n}', ':class: a b', ':name: x', ':loading: lazy']
        kind = pick(r, ['image', 'image', 'figure', '|s0| image'])
        if kind == 'figure':
            o += [':figwidth: image', ':figwidth: 10em', ':figclass: x', ':align: left']
        o = r.sample(o, pick(r, [0, 1, 1, 2, 3, 4]))
        return (f'.. {kind}:: {n}' + ''.join('\n   ' + x for x in o)) + ('\n\n   caption' if kind == 'figure' else '\n\n|s0|' if kind[0] == '|' else '')

    def danger(self):
        r = self.r
        n, u = pick(r, NAMES), pick(r, URLS)
        opt = lambda *o: pick(r, ['', ''] + ['\n   ' + x for x in o])  # noqa: E731
        return pick(r, [
            lambda: f'.. include:: {n}' + opt(':literal:', ':code: python', ':start-line: 0', ':parser: rst', ':encoding: latin-1', ':number-lines:', ':class: x', ':start-after: a', ':tab-width: -1'),
            lambda: f'.. include:: {u}',
            lambda: f'.. include:: <{pick(r, ["isonum.txt", "s5defs.txt", "../../../../etc/passwd"])}>',
            lambda: f'.. csv-table:: t\n   :file: {n}' + opt(':header-rows: 1', ':encoding: utf-8', ':delim: ,', ':widths: 1'),
            lambda: f'.. csv-table::\n   :url: {u}',
            lambda: '.. csv-table:: t\n\n   a,b\n   1,2',
            lambda: f'.. raw:: html\n   :file: {n}',
            lambda: f'.. raw:: html\n   :url: {u}',
            lambda: f'.. raw:: {pick(r, ["html", "html latex", "HTML", "xml", "html4css1", "text"])}\n\n   {self.raw()}',
            lambda: f'.. raw:: html\n   :encoding: utf-8\n\n   {self.raw()}',
            lambda: f'.. figure:: {n}\n   :figwidth: image\n\n   caption',
            lambda: f'.. figure:: {u}\n   :figwidth: image\n   :scale: 50',
            lambda: f'.. image:: {pick(r, [n, u])}\n   :scale: {pick(r, ["50", "200 %"])}' + opt(':height: 10', ':width: 10', ':alt: x', ':target: x_'),
            lambda: self.picture(n),
            lambda: self.picture(n),
            lambda: self.picture(u),
            lambda: f'.. |s{r.randrange(3)}| raw:: html\n\n   {self.raw()}',
            lambda: f'.. |s{r.randrange(3)}| image:: {pick(r, [n, u])}\n   :scale: 20',
            lambda: f'.. |s{r.randrange(3)}| include:: {n}',
            lambda: f'.. |s{r.randrange(3)}| replace:: {self.word()} |s{r.randrange(3)}|',
            lambda: f'|s0| and |s1| and |s2| {self.word()}',
            lambda: f'.. role:: rw{r.randrange(2)}(raw)\n   :format: html\n\n:rw0:`{self.raw()}` :rw1:`{self.raw()}`',
            lambda: f'.. role:: rw0(raw)\n   :format: html\n\n.. default-role:: rw0\n\n`{self.raw()}` text',
            lambda: f':raw:`{self.raw()}` and :rw0:`{self.raw()}`',
            lambda: f'.. default-role:: raw\n\n`{self.raw()}`',
            lambda: f'.. code:: html\n\n   {self.raw()}',
            lambda: f'.. parsed-literal::\n\n   {self.raw()} |s0|',
            lambda: f'.. {pick(r, ["note", "warning", "admonition", "topic", "sidebar"])}:: {self.raw()}',
            lambda: f'.. math:: {self.raw()}',
            lambda: f':math:`{self.raw()}`',
            lambda: f'.. meta::\n   :description: {self.raw()}',
            lambda: f'.. container:: x\n\n   {self.raw()}',
            lambda: f'.. title:: {self.raw()}',
            lambda: f'.. class:: "{self.raw()}"\n\npara',
            lambda: f'.. contents:: {self.raw()}',
            lambda: f'.. header:: {self.raw()}',
            lambda: f'.. footer:: {self.raw()}',
            lambda: f'.. unicode:: 0x3c',
            lambda: f'.. {self.raw()}\n   {self.raw()}\n\n   x --> {self.raw()}',
            lambda: f'`{self.raw()} <http://h.tld/{self.raw()}>`_',
            lambda: f':{pick(r, ["author", "date", "version", "abstract"])}: {self.raw()}',
            lambda: f'.. sectnum::\n   :prefix: {self.raw()}',
            lambda: f'.. list-table::\n\n   * - {self.raw()}\n     - |s0|',
            lambda: f'.. _t: {pick(r, [n, u])}\n\nt_',
            lambda: f'.. restructuredtext-test-directive:: {n}\n\n   {self.raw()}',
            lambda: f'.. image:: x"><xraw{self.raws}>.png\n   :alt: "><xraw{self.raws}>\n   :width: 10',
            lambda: f'.. figure:: a.png\n   :alt: {self.raw()}\n   :align: left\n\n   {self.raw()}',
        ])()

    def indent(self, text, first='   ', rest='   '):
        return '\n'.join((first if i == 0 else rest) + line if line else line for i, line in enumerate(text.split('\n')))

    def wrapped(self, depth=0):
        r = self.r
        x = self.danger() if maybe(r, .8) else self.block()
        k = pick(r, ['plain'] * 5 + ['list', 'quote', 'note', 'table', 'def', 'field', 'enum', 'footnote'])
        if depth < 2 and maybe(r, .2):
            x = x + '\n\n' + self.wrapped(depth + 1)
        if k == 'list':
            return self.indent(x, '- ', '  ')
        if k == 'enum':
            return self.indent(x, '1. ', '   ')
        if k == 'quote':
            return self.indent(x, '  ', '  ')
        if k == 'note':
            return '.. note::\n\n' + self.indent(x)
        if k == 'def':
            return 'term\n' + self.indent(x, '  ', '  ')
        if k == 'field':
            return ':f:\n' + self.indent(x, '  ', '  ')
        if k == 'footnote':
            return '.. [1]\n' + self.indent(x)
        if k == 'table':
            lines = x.split('\n')
            w = max(map(len, lines)) + 2
            return '\n'.join(['+' + '-' * w + '+'] + ['| ' + line.ljust(w - 1) + '|' for line in lines] + ['+' + '-' * w + '+'])
        return x

    def make(self):
        parts = [self.wrapped() if maybe(self.r, .75) else self.block() for _ in range(self.size)]
        return '\n\n'.join(parts) + '\n'


CONTENT = ['secret A', 'a,b\n1,2\n', '<b>secret</b>', 'T\n=\n\n.. include:: secret.txt\n', '\xff\xfe\x00', '', 'x' * 5000, '\x89PNG\r\n\x1a\n\x00\x00\x00\rIHDR\x00\x00\x00\x10\x00\x00\x00\x20\x08\x02\x00\x00\x00']


def state(r):
    """One state of the file system: which of the named files exist, and as what."""
    files = {CWD: {'d': 1}}
    kind = pick(r, ['none', 'all', 'all', 'mixed', 'mixed', 'dirs', 'unreadable'])
    for n in NAMES:
        p = os.path.normpath(n if n.startswith('/') else f'{CWD}/{n}'.replace(f'{CWD}/~', '/home'))
        if kind == 'none':
            continue
        spec = {'all': lambda: {'b': pick(r, CONTENT)}, 'dirs': lambda: {'d': 1}, 'unreadable': lambda: {'b': 'secret', 'mode': 0},
                'mixed': lambda: pick(r, [{'b': pick(r, CONTENT)}, {'d': 1}, None, {'l': pick(r, ['secret.txt', '/etc/passwd', 'loop'])}, {'b': 'x', 'mode': 0}])}[kind]()
        if spec and not any(q.startswith(p + '/') or p.startswith(q + '/') and 'd' not in files[q] for q in files):
            files[p] = spec
    return files


@register
class C11(Scenario):
    pid = 'C11'
    runs = {'quick': 5400, 'thorough': 40000}
    rule = ('a generated ReST document with include, raw, csv-table, figure, image, substitution, role, math and other directives, nested in lists, quotes, tables, notes and definitions, given to rest2html or pypi_rest2html '
            '(sometimes after conversions with trusting settings) in 2-3 drawn states of the file system (named files absent, present with different content, directories, links, unreadable); every system call is observed; non-trivial: distinct plan with such a directive')
    real = ['creole.rest_tools', 'docutils']
    stub = ['file system and system calls (in-memory)', 'network (refused)', 'clock']
    assumptions = ["docutils' own configuration files (docutils.conf, ~/.docutils) are not controlled by the author of the document"]

    def generate(self, r, tier):
        d = Doc(r, 'tk', pick(r, [1, 1, 2, 2, 3, 4, 6]))
        before = [[pick(r, TRUSTED), pick(r, SETTINGS)] for _ in range(pick(r, [1, 1, 2]))] if maybe(r, .15) else []
        return {'before': before, 'fn': pick(r, FNS), 'src': d.make(), 'how': pick(r, ['plain', 'plain', 'kwargs']), 'states': [state(r) for _ in range(pick(r, [2, 2, 3]))], 'stdout': pick(r, ['capture', 'capture', 'capture', 'EPIPE'])}

    def execute(self, plan, ctx):
        st = self.new_stats()
        st['distinct']['documents'] = {core.jhash(plan['src'])}
        st['nontrivial'] = core.jhash(plan) if any(k in plan['src'] for k in ('::', ':`')) else None
        first = None
        for i, files in enumerate(plan['states']):
            sim = simfs.Sim(sorted(files.items()))
            sim.spawn({'argv': ['x'], 'cwd': CWD, 'stderr': plan.get('stdout', 'capture')}, run_rest, plan['fn'], plan['src'], plan['how'], plan.get('before', ()))
            sim.run()
            p = sim.procs[0]
            st['system_calls'] = st.get('system_calls', 0) + sim.g
            for f, s in files.items():
                k = 'named path ' + ('directory' if 'd' in s else 'link' if 'l' in s else 'unreadable' if s.get('mode') == 0 else 'with content')
                if f != CWD:
                    st['faults'][k] = st['faults'].get(k, 0) + 1
            if sim.escapes:
                return Violation('network', f'access outside of the simulation: {sim.escapes[:3]}'), st
            for t in sim.trace:
                # any access, also a probe, to a path the document names
                probed = t[2] in ('stat', 'lstat', 'readlink', 'access') and t[3].startswith(('/home', '/etc', '/tmp')) and os.path.basename(t[3]) in BASENAMES and os.path.basename(t[3]) in plan['src']
                if probed or t[2] in ('open', 'listdir', 'spawn') or t[2] in simfs.MUTATIONS:
                    if t[3].startswith('<fd') or t[2] != 'spawn' and os.path.basename(t[3]) in ('docutils.conf', '.docutils'):
                        continue
                    return Violation('access', f'{t[2]} {t[3]} {t[4]} while converting {core.short(plan["src"])!r}'), st
            out = [p.info.get('outcome'), p.info.get('value')]
            value = out[1] if isinstance(out[1], str) else ''
            value = re.sub('<!--.*?-->', '', value, flags=re.S)  # ReST comments become HTML comments
            k = value.find('<xraw')
            if k >= 0:
                return Violation('raw', f'raw markup in the result: {core.short(value[max(0, k - 60):k + 60])!r} of {core.short(plan["src"])!r}'), st
            if first is None:
                first = out
            elif first != out:
                return Violation('differs', f'with file system state {i} the result is {core.short(repr(out))}, with state 0 {core.short(repr(first))}'), st
            key = 'refused (error)' if out[0][0] != 'ok' else 'converted'
            st[key] = st.get(key, 0) + 1
        return None, st

    def describe(self, plan):
        return {'fn': plan['fn'], 'src': core.short(plan['src'], 600), 'states': [{k: core.short(str(v), 40) for k, v in s.items()} for s in plan['states']]}

    def shrink(self, plan):
        if len(plan['states']) > 1:
            for i in range(len(plan['states'])):
                yield shrink.replaced(plan, states=shrink.without(plan['states'], i))
        for i in range(len(plan.get('before', ()))):
            yield shrink.replaced(plan, before=shrink.without(plan['before'], i))
        for t in shrink.texts(plan['src']):
            yield shrink.replaced(plan, src=t)
        for i, s in enumerate(plan['states']):
            for f in s:
                if f != CWD:
                    yield shrink.replaced(plan, states=plan['states'][:i] + [{k: v for k, v in s.items() if k != f}] + plan['states'][i + 1:])
