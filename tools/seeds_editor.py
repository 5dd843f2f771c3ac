COMPS = "spicelib/editor/spice_components.py"
SUBC = "spicelib/editor/spice_subcircuit.py"
SFILE = "spicelib/editor/spice_file.py"
ENET = '''
import io
from spicelib.editor.spice_editor import SpiceEditor
CKT = os.path.join(TMP, "ckt.net")
open(CKT, "w").write("""* t
V1 in 0 1
R1 in out 1k tol=1 temp=50
X1 in out AMP
X2 out 0 AMP
.subckt AMP a b
.param g=2
R1 a m 2k
X9 m b INNER
.ends
.subckt INNER p q
R7 p q {g2}
.param g2=7
.ends
.save V(out)
.save V(out) V(in)
.op
.end
""")
def text(e):
    s = io.StringIO(); e.save_netlist(s); return s.getvalue()
e = SpiceEditor(CKT)
'''
seed("E01-parameter-removal-not-written", "E01",
     "removing one of several parameters of a component, then saving",
     "the removed parameter is still there in the saved netlist",
     [(COMPS, "                else:\n                    for key in old_params:\n                        if key not in self.params:\n                            differences = True\n                            break\n",
       "                else:\n                    differences = len(self.params) == 0 and len(old_params) > 0\n")],
     ENET + '''
e.set_component_parameters("R1", tol=None)
t = SpiceEditor(CKT)
out = [l for l in text(e).splitlines() if l.startswith("R1 in")][0]
sys.exit(0 if "tol" not in out and "temp=50" in out else 1)
''')
seed("E01-component-list-skips", "E01",
     "a component whose reference is that of the one before it followed by 0 (R1, R10)",
     "such a component is missing from the list of components",
     [(SUBC, "                    if reference[0] in prefixes:\n                        answer.append(reference)  # Appends only the designators\n",
       "                    if reference[0] in prefixes and not (answer and reference == answer[-1] + '0'):\n                        answer.append(reference)  # Appends only the designators\n")],
     ENET.replace("X1 in out AMP", "R10 in out 5\\nX1 in out AMP") + '''
sys.exit(0 if e.get_components("R") == ["R1", "R10"] else 1)
''')
seed("E02-copy-lost-before-mixed-case-end", "E02",
     "a netlist that ends with .End (neither all upper nor all lower case) and contains an edited instance",
     "the copy made for the instance is not written to the saved netlist",
     [(SUBC, '                if line.upper().startswith(".END"):\n', '                if line.lstrip().startswith((".end", ".END")):\n')],
ENET.replace('\n.end\n"""', '\n.End\n"""') + '''
e.set_component_value("X1:R1", "55")
p = os.path.join(TMP, "new.net"); e.save_netlist(p)
try:
    v = SpiceEditor(p).get_component_value("X1:R1")
except Exception:
    v = None
sys.exit(0 if v == "55" else 1)
''')
seed("E03-removal-by-beginning", "E03",
     "a netlist with a directive that starts with the text of another one further down",
     "removing a directive removes another one that only begins with the same text",
     [(SFILE, "            if isinstance(line, Primitive) and line.obj.strip() == instruction.strip(): # pyright: ignore[reportOptionalMemberAccess]\n                del self.netlist[i]\n",
       "            if isinstance(line, Primitive) and line.obj.strip().startswith(instruction.strip()): # pyright: ignore[reportOptionalMemberAccess]\n                del self.netlist[i]\n")],
     ENET + '''
e.add_instruction(".options abstol=1p reltol=1m")
e.add_instruction(".options abstol=1p")
e.remove_instruction(".options abstol=1p")
sys.exit(0 if ".options abstol=1p reltol=1m" in text(e) else 1)
''')
seed("E04-model-change-keeps-old-inside", "E04",
     "looking inside an instance, then making it an instance of another subcircuit, then looking or editing inside again",
     "the instance still shows and copies the content of its former subcircuit",
     [("spicelib/editor/spice_subcircuit_instance.py", "        super().set_value(value)\n        self._subcircuit = None\n", "        super().set_value(value)\n")],
     ENET + '''
assert e.get_component_value("X1:R1") == "2k"
e.set_component_value("X1", "INNER")
sys.exit(0 if e.get_subcircuit("X1").get_components() == ["R7"] else 1)
''')
seed("E04-reading-writes-copies", "E04",
     "reading a component inside an instance before saving",
     "reading inside an instance makes the saved netlist contain copies of the subcircuit",
     [("spicelib/editor/spice_subcircuit_instance.py", "        return self.shadow_subcircuit is not None and self.shadow_subcircuit._modified\n",
       "        return self.shadow_subcircuit is not None and (self.shadow_subcircuit._modified or len(self.shadow_subcircuit.get_subcircuit_names()) > 0)\n")],
     ENET.replace(".ends\\n.subckt INNER p q", ".subckt SUBN s t\\nR2 s t 4\\n.ends\\n.ends\\n.subckt INNER p q").replace(".ends\n.subckt INNER p q", ".subckt SUBN s t\nR2 s t 4\n.ends\n.ends\n.subckt INNER p q") + '''
before = text(e)
e.get_component_value("X1:R1")
sys.exit(0 if text(e) == before else 1)
''')
seed("E05-removal-and-addition-merged", "E05",
     "a parameter removed and added again",
     "adding a parameter overwrites the record of its removal instead of being recorded on its own",
     [("spicelib/editor/updates.py", "                    (update.updates == updates or updates == UpdateType.InvalidUpdate)):\n",
       "                    (update.updates == updates or updates == UpdateType.InvalidUpdate or\n                     (update.updates, updates) == (UpdateType.DeleteParameter, UpdateType.AddParameter))):\n")],
     ENET.replace(".save V(out)\\n", ".param zz=3\\n.save V(out)\\n").replace(".save V(out)\n.save", ".param zz=3\n.save V(out)\n.save") + '''
e.set_parameter("zz", None)
e.set_parameter("zz", 4)
sys.exit(0 if [u.updates.name for u in e.netlist_updates] == ["DeleteParameter", "AddParameter"] else 1)
''')
