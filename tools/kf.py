import json
F=[("C03","6807ee3","resource files stayed open after a lookup (codecs.open() without close)"),
("C04","ddf6f22","two threads loading at once: ValueError 'generator already executing', bundles lost or in another order"),
("C03","ddf6f22","a failed load finished the bundle generator: all later lookups skipped the remaining locales"),
("C09","ddf6f22","a lookup interrupted while loading finished the bundle generator for good"),
("C06","11087c1","an overriding definition was ignored once the message had been retrieved or formatted"),
("C05","11087c1","a thread compiling a message could store the old definition after another one had been added"),
("C11","4f6ddfa","fluent_date() dropped `fold`, so times in repeated hours denoted another instant"),
("C14","7402172","fluent.pygments.cli read files in the encoding of the process locale"),
("C08","3a3882f","a TypeError inside a referenced pattern was reported as 'No pattern' and the reference's text was lost"),
("C08","ade3747","a failing value formatter, or any exception but ValueError, was raised out of format_pattern"),
("C10","7337c74","patterns that are just one placeable escaped the cycle and work limits"),
("C15","4f4221d","failing git worktree/checkout was ignored: documentation was built from another version's source"),
("C15","0e09ee8","a failing release build skipped the removal of its checkout"),
("C16","0e09ee8","the temporary checkout stayed behind when a release failed to build, and broke the next build"),
("C05","9fd87d7","adding without overrides replaced a definition another thread had added meanwhile"),
("C14","4584de0","tools/*.py silently dropped an incomplete UTF-8 character at the end of a file and reported success"),
("C12","0ff6fa3","with CRLF line ends, a comment with an empty line was split and only its rest attached to the message"),
("C19","71ff841","each save inserted four spaces into texts containing U+0085, U+2028, form feeds and others"),
("C18","37e284c","returning None for a property from a transformer: RuntimeError, node left without the attribute"),
("C19","f6ae9ab","with junk kept, each save added blank lines before comments, and entries added after junk without line break were lost"),
("C19","e24d2d6","a '#' at the end of a file was junk, which became a comment when something was added after it"),
("C12","70b2409","parsing an entry with some hundred nested placeables or call arguments raised RecursionError: all other entries were lost too"),
("C13","70b2409","a text with some hundred opening braces in a row could not be parsed (RecursionError), so nothing of it was reported or written back"),
("C12","c95d0dd","a number literal with more than 4300 digits made looking its message up raise ValueError"),
("C10","7dc9bf6","a huge minimumIntegerDigits or minimumFractionDigits in a translation kept a formatting call busy for hours or used up the memory"),
("C12","c05391e","an escape damaged to a code point beyond U+10FFFF made lookups raise ValueError (chr() arg not in range)"),
("C27","12e57ea","every overriding of a definition that had been used left the old one in memory")]
d=json.load(open("/verif/known_findings.json"))
d["findings"]=[e for e in d["findings"] if e["status"]=="known"]+[{"property":p,"status":"fixed","commit":c,"what":f"fixed: property={p} {c} {w}"} for p,c,w in F]
json.dump(d,open("/verif/known_findings.json","w"),indent=1,ensure_ascii=False)
