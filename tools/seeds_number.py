FU = "spicelib/utils/float_unit.py"
seed("N01-zeros-after-infix-suffix", "N01",
     "digits after an infix multiplier that start with zero",
     "1k05 is read as 1.5k",
     [(FU, '''            value = float(value[:k] + "." + suffix_number) * multiplier''', '''            value = float(f"{value[:k]}.{int(suffix_number)}") * multiplier''')],
     '''
from spicelib.utils.float_unit import scan_eng
assert scan_eng("1k5") == 1500
assert abs(scan_eng("1k05") - 1050) < 1e-9, scan_eng("1k05")
''')
seed("N01-not-equal-ignores-texts", "N01",
     "a value compared by != with a text",
     "a value is both equal and not equal to the same text",
     [(FU, '''        return not self.__eq__(other)''', '''        return float(self) != other''')],
     '''
from spicelib.utils.float_unit import float_unit
a = float_unit("1k")
assert a == "1000" and a != 1001
assert not (a != "1000")
''')
seed("N01-negative-infix", "N01",
     "a negative number with an infix multiplier",
     "-4k7 is read as -3.3k",
     [(FU, '''            value = float(value[:k] + "." + suffix_number) * multiplier''', '''            value = (float(value[:k]) + float("." + suffix_number)) * multiplier''')],
     '''
from spicelib.utils.float_unit import scan_eng
assert abs(scan_eng("4k7") - 4700) < 1e-9
assert abs(scan_eng("-4k7") + 4700) < 1e-9, scan_eng("-4k7")
''')
seed("N02-rounded-to-three-decimals", "N02",
     "a number with more than three decimals after its multiplier",
     "1234.56789 is written as 1.235k",
     [(FU, '''    return f"{value * (1000 ** -exp):g}{suffix}"''', '''    return f"{round(value * (1000 ** -exp), 3):g}{suffix}"''')],
     '''
from spicelib import SpiceEditor
p = os.path.join(TMP, "a.net")
open(p, "w").write("* t\\nV1 a 0 1\\nR1 a 0 1k\\n.end\\n")
e = SpiceEditor(p)
e.set_component_value("R1", 1234.56)
e.save_netlist(p)
from spicelib.utils.float_unit import scan_eng
v = scan_eng(SpiceEditor(p).get_component_value("R1"))
assert abs(v - 1234.56) < 0.006, v
''')
seed("N02-case-of-multiplier-not-a-change", "N02",
     "a text that differs only in upper and lower case from the one in the netlist, M and m",
     "setting 1m over 1M is not written to the netlist",
     [("spicelib/editor/spice_components.py", '''                    if old_attr_value != new_attr_value:''', '''                    if old_attr_value != new_attr_value and str(old_attr_value).upper() != str(new_attr_value).upper():''')],
     '''
from spicelib import SpiceEditor
p = os.path.join(TMP, "a.net")
open(p, "w").write("* t\\nV1 a 0 1\\nR1 a 0 1M\\n.end\\n")
e = SpiceEditor(p)
e.set_component_value("R1", "2M")
e.set_component_value("R1", "1m")
e.save_netlist(os.path.join(TMP, "b.net"))
assert "R1 a 0 1m" in open(os.path.join(TMP, "b.net")).read()
''')
seed("N02-asc-first-text-replaced", "N02",
     "two parameters of one .param directive, where the value of the second is also in the text of the first",
     "the value is replaced in the wrong parameter of an .asc schematic",
     [("spicelib/editor/asc_editor.py", '''            directive.text = f"{directive.text[:start]}{value_str}{directive.text[stop:]}"''', '''            directive.text = directive.text.replace(directive.text[start:stop], f"{value_str}", 1)''')],
     '''
from spicelib import AscEditor
p = os.path.join(TMP, "a.asc")
open(p, "w").write("Version 4\\nSHEET 1 880 680\\nTEXT 100 440 Left 2 !.param p=1 q=1\\n")
e = AscEditor(p)
e.set_parameter("q", 5)
e.save_netlist(p)
e = AscEditor(p)
assert (e.get_parameter("p"), e.get_parameter("q")) == ("1", "5"), (e.get_parameter("p"), e.get_parameter("q"))
''')
