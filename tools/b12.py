exec(open("/verif/tools/b10.py").read().split('P("c28-duplicate-ids')[0])
TIME='''
import gc, time
def seconds(f, n=3):
    gc.disable()
    best = 1e9
    for _ in range(n):
        t = time.thread_time()
        f()
        best = min(best, time.thread_time() - t)
    gc.enable()
    return best
def proportional(make, size, factor=16, allowed=4.5):
    # CPU time, as the work is not in Python functions
    for _ in range(3):
        ratio = seconds(make(size * factor), 1) / seconds(make(size)) / factor
        if ratio < allowed:
            return
    raise AssertionError(ratio)
'''
P("c28-lexer-rest","C28","highlighting a long text with many tokens (the extra work is the copying of the rest of the text)",
 "punctuation is cut from a copy of the rest of the text",
 [("fluent.pygments/fluent/pygments/lexer.py","                yield last_end, Token.Punctuation, text[last_end:start]\n","                rest = text[last_end:]\n                yield last_end, Token.Punctuation, rest[: start - last_end]\n")],
TIME+"""
from fluent.pygments.lexer import FluentLexer
proportional(lambda k: lambda: [None for _ in FluentLexer().get_tokens_unprocessed("m = { $n }{ $n } \\U0001f600\\n" * k)], 3000, 24)
""")
P("c28-entry-once","C28","a text with very many entries (the extra work is in the list's own search)",
 "the parser makes sure that no entry is listed twice",
 [(PA,"            entries.append(entry)\n\n        res =","            if entry not in entries:\n                entries.append(entry)\n\n        res =")],
TIME+"""
from fluent.syntax import FluentParser
proportional(lambda k: lambda: FluentParser().parse("m = a\\n" * k), 4000)
""")
P("c28-messages-copied","C28","a bundle with very many messages (the extra work is in copying a table)",
 "has_message() asks a copy of the table of messages",
 [(BU,"        return message_id in self._messages\n","        return message_id in list(self._messages)\n")],
TIME+BUND+"""
from fluent.syntax import ast
def make(n):
    b = FluentBundle(["en"])
    v = ast.Pattern([ast.TextElement("x")])
    b.add_resource(ast.Resource([ast.Message(ast.Identifier("m%d" % i), v) for i in range(n)]))
    return seconds(lambda: b.has_message("m%d" % (n - 1)), 20)
assert make(200000) < make(10) + .0003
""")
P("c28-comment-so-far","C28","a comment of very many lines (the extra work is in copying what was read so far)",
 "the lines of a comment are gathered in the parser, whose text is copied whenever it grows",
 [(PA,"        level = -1\n        content = \"\"\n\n        while True:\n            i = -1\n","        level = -1\n        self.content = \"\"\n\n        while True:\n            i = -1\n"),
  (PA,"                    content += ch\n                    ch = ps.take_char(lambda x: x != EOL)\n\n            if ps.is_next_line_comment(level=level):\n                content += cast(str, ps.current_char)\n","                    self.content += ch\n                    ch = ps.take_char(lambda x: x != EOL)\n\n            if ps.is_next_line_comment(level=level):\n                self.content += cast(str, ps.current_char)\n"),
  (PA,"        if level == 0:\n            return ast.Comment(content)\n        elif level == 1:\n            return ast.GroupComment(content)\n        elif level == 2:\n            return ast.ResourceComment(content)\n","        content = self.content\n        if level == 0:\n            return ast.Comment(content)\n        elif level == 1:\n            return ast.GroupComment(content)\n        elif level == 2:\n            return ast.ResourceComment(content)\n")],
TIME+"""
from fluent.syntax import FluentParser
proportional(lambda k: lambda: FluentParser().parse("# comment \\u00e9 \\U0001f600\\n" * k), 1600, 24)
""")
P("c28-junk-lines","C28","a text with very much junk (the extra work is in splitting the text before it into lines)",
 "each error notes its line, counted from the beginning of the text",
 [(PA,"            error_index = ps.index\n","            error_index = ps.index\n            self.error_line = len(ps.string[:error_index].splitlines())\n")],
TIME+"""
from fluent.syntax import FluentParser
proportional(lambda k: lambda: FluentParser().parse("??\\nm = a\\n" * k), 2000, 16)
""")
