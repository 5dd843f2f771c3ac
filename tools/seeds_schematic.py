AE = "spicelib/editor/asc_editor.py"
QE = "spicelib/editor/qsch_editor.py"
BS = "spicelib/editor/base_schematic.py"
ASCHEAD = '''
for n, p in (("res", "R"), ("cap", "C")):
    open(os.path.join(TMP, n + ".asy"), "w").write("Version 4\\nSymbolType CELL\\nSYMATTR Prefix %s\\nPIN 16 16 NONE 0\\nPINATTR PinName A\\nPINATTR SpiceOrder 1\\n" % p)
P = os.path.join(TMP, "t.asc")
def asc(*lines):
    open(P, "w").write("\\n".join(("Version 4", "SHEET 1 880 680") + lines) + "\\n")
RES = ("SYMBOL res 32 0 R0", "SYMATTR InstName R1", "SYMATTR Value 1k")
from spicelib import AscEditor
'''
QHEAD = '''
from spicelib import QschEditor
P = os.path.join(TMP, "t.qsch")
def qsch(body):
    open(P, "w", encoding="cp1252").write("\\u00ff\\u00d8\\u00ff\\u00db\\u00abschematic\\n" + body.replace("<<", "\\u00ab").replace(">>", "\\u00bb") + "\\u00bb\\n")
def comp(ref, value, x, *params):
    s = "  <<component (%d,100) 0 0\\n    <<symbol R\\n      <<type: R>>\\n      <<description: Resistor>>\\n      <<shorted pins: false>>\\n" % x
    for v in (ref, value) + params:
        s += '      <<text (0,0) 1 7 0 0x1000000 -1 -1 "%s">>\\n' % v
    return s + '      <<pin (0,200) (0,0) 1 0 0 0x0 -1 "+">>\\n      <<pin (0,-200) (0,0) 1 0 0 0x0 -1 "-">>\\n    >>\\n  >>\\n'
def text(s, comment=0):
    return '  <<text (0,0) 1 13 %d 0x1000000 -1 -1 "%s%s">>\\n' % (comment, "" if comment else "\\u00ef\\u00bb\\u00bf", s)
'''
seed("A01-shapes-doubled-by-reset", "A01",
     "a schematic with shapes that is reset and then saved",
     "shapes are in the file twice",
     [(BS, '''        self.shapes.clear()
''', '''        self.lines.clear()
''')],
     ASCHEAD + '''
asc("RECTANGLE Normal 0 0 48 48", *RES)
e = AscEditor(P)
e.reset_netlist()
Q = os.path.join(TMP, "q.asc")
e.save_netlist(Q)
assert open(Q).read().count("RECTANGLE") == 1
''')
seed("A01-save-elsewhere-moves-editor", "A01",
     "save to another file with save_as using a name without extension, then reset",
     "the editor goes back to the file that it was loaded from, instead of the one it was saved as",
     [(AE, '''            new_circuit_filepath = new_circuit_filepath.with_suffix(".asc")
        self._circuit_filepath = new_circuit_filepath
''', '''            new_circuit_filepath = new_circuit_filepath.with_suffix(".asc")
        else:
            self._circuit_filepath = new_circuit_filepath
''')],
     ASCHEAD + '''
asc(*RES)
e = AscEditor(P)
e.set_component_value("R1", "2k")
e.save_as(os.path.join(TMP, "q"))
e.reset_netlist()
assert e.get_component_value("R1") == "2k"
''')
seed("A01-qsch-first-parameter-of-line", "A01",
     "a line of a component with several parameters, and the second of them is set",
     "the first parameter of the line gets the value",
     [(QE, '''                        if match.group("name") == key:''', '''                        if match.group("name") == key or f" {key}=" in text_value:''')],
     QHEAD + '''
qsch(comp("R1", "1k", 100, "tol=1 temp=27"))
e = QschEditor(P)
e.set_component_parameters("R1", temp="50")
p = e.get_component_parameters("R1")
assert p["tol"] == "1" and p["temp"] == "50", p
''')
seed("A02-parameter-in-mixed-case", "A02",
     "a parameter that is asked for with a case that is neither that of the file nor all upper case",
     "it is not found, and set twice",
     [(AE, '''        param_name_uppercase = param_name.upper()
''', '''        param_name_uppercase = param_name.upper() if param_name.islower() else param_name
''')],
     ASCHEAD + '''
asc("TEXT 10 10 Left 2 !.param gain=1", *RES)
e = AscEditor(P)
assert e.get_parameter("GAIN") == e.get_parameter("gain") == "1"
e.set_parameter("Gain", "3")
assert e.get_parameter("gain") == "3"
''')
seed("A02-patterns-of-one-case", "A02",
     "instructions removed by a pattern in another case",
     "they are not removed",
     [(QE, '''        regex = re.compile(search_pattern, re.IGNORECASE)
        instr_removed''', '''        regex = re.compile(search_pattern)
        instr_removed''')],
     QHEAD + '''
qsch(comp("R1", "1k", 100) + text(".tran 1m") + text(".save V(a)"))
e = QschEditor(P)
assert e.remove_Xinstruction(r"\\.TRAN")
assert e.remove_Xinstruction(r"\\.save")
''')
seed("A02-noise-not-replaced", "A02",
     "a noise analysis that is followed by another analysis",
     "the schematic has two analyses",
     [("spicelib/editor/spice_utils.py", '''('.AC', '.DC', '.TRAN', '.NOISE', '.TF')''', '''('.AC', '.DC', '.TRAN', '.TF')''')],
     ASCHEAD + '''
asc("TEXT 10 10 Left 2 !.noise V(out) V1 dec 10 1 1k", *RES)
e = AscEditor(P)
e.add_instruction(".tran 1m")
Q = os.path.join(TMP, "q.asc")
e.save_netlist(Q)
s = open(Q).read()
assert ".tran 1m" in s and ".noise" not in s
''')
QNET = '''
def netlist(e):
    import io
    b = io.StringIO(); e.save_netlist(b)
    return b.getvalue()
'''
seed("A03-library-once-per-circuit", "A03",
     "two components with the same library, the first of them disabled",
     "the netlist has no .lib for it",
     [(QE, '''            if len(symbol_tags) != 1 or disabled:
                continue
''', '''            if len(symbol_tags) != 1:
                continue
            if disabled:
                libraries_to_include.append(symbol_tags[0].get_text('library file', default=""))
                continue
'''),
      (QE, '''        for library in libraries_to_include:
''', '''        used = [c.attributes['tag'].get_items('symbol')[0].get_text('library file', default="") for c in list(self.components.values())[:1] if not c.attributes['enabled']]
        for library in [name for name in libraries_to_include if name and name not in used]:
''')],
     QHEAD + QNET + '''
def dio(ref, x, off):
    return comp(ref, "1N4148", x).replace("symbol R\\n", "symbol D\\n").replace("<<type: R>>", "<<type: D>>").replace("<<shorted", "<<library file: D.txt>>\\n      <<shorted").replace("0 0\\n", "0 %d\\n" % off, 1)
open(os.path.join(TMP, "D.txt"), "w").write("* m\\n")
qsch(dio("D1", 0, 1) + dio("D2", 500, 0))
s = netlist(QschEditor(P))
assert s.count(".lib") == 1 and "D1" not in s and "D2" in s, s
''')
seed("A03-comment-goes-on", "A03",
     "a comment of several lines where one starts with +",
     "that line is in the netlist, and goes on with the instruction before it",
     [(QE, '''                if text_tag.get_attr(QSCH_TEXT_COMMENT) != 1:  # Comments are not written to the netlist
''', '''                if text_tag.get_attr(QSCH_TEXT_COMMENT) != 1 or line.startswith('+'):  # Comments are not written to the netlist
''')],
     QHEAD + QNET + '''
qsch(comp("R1", "1k", 0) + text(".param a=1") + text(".param b=2\\\\n+ c=3", 1))
s = netlist(QschEditor(P))
assert "a=1" in s and "c=3" not in s, s
''')
seed("A03-sheet-of-disabled-block", "A03",
     "two blocks of the same sheet, where the first is disabled",
     "the netlist does not define the sheet",
     [(QE, '''            if len(symbol_tags) != 1 or disabled:
                continue
            symbol_tag = symbol_tags[0]
''', '''            if len(symbol_tags) != 1:
                continue
            symbol_tag = symbol_tags[0]
            if disabled:
                subcircuits_to_write[symbol_tag.get_items('text')[1].get_text_attr(QSCH_TEXT_STR_ATTR)] = None
                continue
'''), (QE, '''        for sub_circuit in subcircuits_to_write:
''', '''        for sub_circuit in [name for name, item in subcircuits_to_write.items() if item is not None]:
''')],
     QHEAD + QNET + '''
def block(ref, x, off):
    return comp(ref, "low", x).replace("symbol R\\n", "symbol\\n").replace("<<type: R>>", "<<type: >>").replace("0 0\\n", "0 %d\\n" % off, 1)
qsch(comp("R1", "1k", 0)); os.rename(P, os.path.join(TMP, "low.qsch"))
qsch(block("X1", 0, 1) + block("X2", 600, 0))
s = netlist(QschEditor(P))
assert s.count(".subckt low") == 1 and "X1 " not in s, s
''')
CV = "spicelib/scripts/asc_to_qsch.py"
CHEAD = '''
from spicelib.scripts.asc_to_qsch import convert_asc_to_qsch
os.chdir(TMP)
def asy(folder, desc):
    os.makedirs(folder, exist_ok=True)
    open(os.path.join(folder, "part.asy"), "w").write("Version 4\\nSymbolType CELL\\nWINDOW 0 16 16 Left 2\\nWINDOW 3 16 32 Left 2\\nSYMATTR Value R\\nSYMATTR Prefix R\\nSYMATTR Description %s\\n"
        "PIN 0 0 NONE 0\\nPINATTR PinName A\\nPINATTR SpiceOrder 1\\nPIN 0 64 NONE 0\\nPINATTR PinName B\\nPINATTR SpiceOrder 2\\n" % desc)
def convert(rot, *paths):
    open("sheet.asc", "w").write("Version 4\\nSHEET 1 880 680\\nSYMBOL part 160 160 %s\\nSYMATTR InstName R1\\nSYMATTR Value 1k\\n" % rot)
    convert_asc_to_qsch(os.path.abspath("sheet.asc"), os.path.abspath("sheet.qsch"), [os.path.abspath(p) for p in paths])
    return open("sheet.qsch", encoding="cp1252").read()
'''
seed("A04-last-folder-wins", "A04",
     "a symbol that is in a search path and next to the schematic",
     "the symbol of the last folder that has it is used, not the one of the search path",
     [(CV, '''                        symbol_stock[comp.symbol] = symbol_tag
                        break
''', '''                        symbol_stock[comp.symbol] = symbol_tag
''')],
     CHEAD + '''
asy("lib", "of the library"); asy(".", "of the schematic")
assert "of the library" in convert("R0", "lib")
''')
seed("A04-mirrored-quarter-turn", "A04",
     "a component that is mirrored and turned by 270 degrees",
     "it is turned the wrong way: its pins are not where the wires end",
     [(CV, '''        elif comp.rotation == 270 + 360:
            comp.rotation = 90 + 360
''', '''''')],
     CHEAD + '''
asy(".", "x")
assert ") 14 0" in convert("M90") and ") 10 0" in convert("M270")
''')
