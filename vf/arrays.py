"""Executes the array helpers of lib/en_tb/hdl/en_tb_base_pkg.vhd with GHDL."""
from . import vhdl
from .common import MachineryError, path

# name, array type, conversion from and to std_logic_vector, holds metavalues
TYPES = [
    ("slv", "SlvArray_t", "std_logic_vector", "{}", "{}", True),
    ("sulv", "SulvArray_t", "std_ulogic_vector", "{}", "{}", True),
    ("unsigned", "UnsignedArray_t", "ieee.numeric_std.unsigned", "ieee.numeric_std.unsigned({})", "std_logic_vector({})", True),
    ("signed", "SignedArray_t", "ieee.numeric_std.signed", "ieee.numeric_std.signed({})", "std_logic_vector({})", True),
    ("bv", "BitVectorArray_t", "bit_vector", "to_bitvector({})", "to_stdlogicvector({})", False),
    ("bits_unsigned", "UnsignedBitArray_t", "ieee.numeric_bit.unsigned", "ieee.numeric_bit.unsigned(to_bitvector({}))",
     "to_stdlogicvector(bit_vector({}))", False),
    ("bits_signed", "SignedBitArray_t", "ieee.numeric_bit.signed", "ieee.numeric_bit.signed(to_bitvector({}))",
     "to_stdlogicvector(bit_vector({}))", False),
]
TY = {t[0]: i for i, t in enumerate(TYPES)}
OPS = {"flatten": 1, "numel": 2, "unflatten_p": 3, "unflatten_f": 4, "check": 5, "check_c": 6, "vcheck": 7, "vcheck_c": 8}
ARR = ["(0 to n-1)", "(n-1 downto 0)"]
EL = ["(w-1 downto 0)", "(0 to w-1)", "(w+1 downto 2)"]
VEC = ["(w*n-1 downto 0)", "(0 to w*n-1)", "(w*n+4 downto 5)"]


def source():
    o, main = [], []
    for i, (name, arr, ty, to, back, _) in enumerate(TYPES):
        arms = []
        for a, ar in enumerate(ARR):
            for e, er in enumerate(EL):
                k = f"{i}_{a}{e}"
                o.append(f"""
    procedure load_{k}(l : inout line; d : out {arr}; w : natural) is
        variable t : std_logic_vector(w-1 downto 0);
    begin
        for j in 0 to d'length-1 loop
            next_p(l, t);
            d(j) := {to.format("t")};
        end loop;
    end procedure;""" if a == 0 and e == 0 else "")
                o.append(f"""
    procedure fl_{k}(l : inout line; o : inout line; op, n, w : natural) is
        variable d : {arr}{ar}{er};
    begin
        load_{i}_00(l, d, w);
        if op = 1 then
            put(o, {back.format("Flatten(d)")});
        else
            std.textio.write(o, Numel(d), right, 0);
        end if;
    end procedure;

    procedure un_{k}(l : inout line; o : inout line; op, n, w, r : natural) is
        variable d  : {arr}{ar}{er};
        variable v0 : {ty}{VEC[0]};
        variable v1 : {ty}{VEC[1]};
        variable v2 : {ty}{VEC[2]};

        procedure go(x : {ty}; y : out {arr}) is
        begin
            if op = 3 then
                Unflatten(x, y);
            else
                y := Unflatten(x, d);
            end if;
        end procedure;
        variable y  : {arr}{ar}{er};
        variable t  : std_logic_vector{VEC[0]};
    begin
        next_p(l, t);
        v0 := {to.format("t")};
        v1 := v0;
        v2 := v0;
        case r is
            when 0 => go(v0, y);
            when 1 => go(v1, y);
            when others => go(v2, y);
        end case;
        for j in 0 to n-1 loop
            put(o, {back.format("y(j)")});
        end loop;
    end procedure;

    procedure ck_{k}(l : inout line; o : inout line; op, n, m, w : natural) is
        variable g : {arr}{ar}{er};
        variable e : {arr}{ar.replace("n-1", "m-1")}{er};
    begin
        load_{i}_00(l, g, w);
        load_{i}_00(l, e, w);
        counter.reset;
        if op = 5 then
            check_equal(g, e, "vf");
        else
            check_equal(other_checker, g, e, "vf");
        end if;
        std.textio.write(o, counter.failures, right, 0);
        std.textio.write(o, string'(" "));
        std.textio.write(o, counter.checker, right, 0);
    end procedure;""")
                arms.append((a, e, k))
        if name in ("bv", "bits_unsigned", "bits_signed"):
            o.append(f"""
    procedure vc_{i}(l : inout line; o : inout line; op, w, v : natural) is
        variable g : {ty}(w-1 downto 0);
        variable e : {ty}(v-1 downto 0);
        variable t : std_logic_vector(w-1 downto 0);
        variable u : std_logic_vector(v-1 downto 0);
    begin
        next_p(l, t);
        next_p(l, u);
        g := {to.format("t")};
        e := {to.format("u")};
        counter.reset;
        if op = 7 then
            check_equal(g, e, "vf");
        else
            check_equal(other_checker, g, e, "vf");
        end if;
        std.textio.write(o, counter.failures, right, 0);
        std.textio.write(o, string'(" "));
        std.textio.write(o, counter.checker, right, 0);
    end procedure;""")
        main.append(f"                when {i} =>\n                    case op is")
        for ops, call in (("1 | 2", "fl_{}(l, o, op, n, w);"), ("3 | 4", "un_{}(l, o, op, n, w, r);"), ("5 | 6", "ck_{}(l, o, op, n, m, w);")):
            main.append(f"                        when {ops} =>\n                            case ae is")
            for a, e, k in arms:
                main.append(f"                                when {3 * a + e} => {call.format(k)}")
            main.append("                                when others => report \"ae\" severity failure;\n                            end case;")
        if name in ("bv", "bits_unsigned", "bits_signed"):
            main.append(f"                        when 7 | 8 => vc_{i}(l, o, op, w, m);")
        main.append("                        when others => report \"op\" severity failure;\n                    end case;")
    return TEMPLATE.replace("@PROCS@", "\n".join(o)).replace("@MAIN@", "\n".join(main))


TEMPLATE = """-- Generated by vf/arrays.py
library ieee;
    use ieee.std_logic_1164.all;
library std;
    use std.textio.all;
library vunit_lib;
    context vunit_lib.vunit_context;
library en_tb;
    use en_tb.en_tb_base_pkg.all;

entity vf_arrays is
    generic(IN_FILE : string; OUT_FILE : string);
end entity;

architecture sim of vf_arrays is

    -- Next token as a vector of w elements
    procedure next_p(l : inout line; v : out std_logic_vector) is
        variable c  : character;
        variable ok : boolean;
        variable k  : natural := 0;
        alias v_a   : std_logic_vector(1 to v'length) is v;
    begin
        loop
            std.textio.read(l, c, ok);
            exit when not ok or c /= ' ';
        end loop;
        while ok and c /= ' ' loop
            if c /= '!' then
                k := k + 1;
                case c is
                    when '0' => v_a(k) := '0';
                    when '1' => v_a(k) := '1';
                    when 'U' => v_a(k) := 'U';
                    when 'X' => v_a(k) := 'X';
                    when 'Z' => v_a(k) := 'Z';
                    when 'W' => v_a(k) := 'W';
                    when 'L' => v_a(k) := 'L';
                    when 'H' => v_a(k) := 'H';
                    when others => v_a(k) := '-';
                end case;
            end if;
            std.textio.read(l, c, ok);
        end loop;
        assert k = v'length report "vf_arrays: bad data" severity failure;
    end procedure;

    procedure put(o : inout line; x : std_logic_vector) is
        constant x_c : std_logic_vector(1 to x'length) := x;
        constant chars_c : string(1 to 9) := "UX01ZWLH-";
    begin
        std.textio.write(o, string'(" !"));
        for i in x_c'range loop
            std.textio.write(o, chars_c(std_ulogic'pos(x_c(i)) + 1));
        end loop;
    end procedure;

@PROCS@

begin

    process
        file fi             : text;
        file fo             : text;
        variable l, o       : line;
        variable id, op, ty, ae, n, m, w, r : integer;
    begin
        file_open(fi, IN_FILE, read_mode);
        file_open(fo, OUT_FILE, write_mode);
        while not endfile(fi) loop
            wait for 1 ns;
            readline(fi, l);
            std.textio.read(l, id);
            std.textio.read(l, op);
            std.textio.read(l, ty);
            std.textio.read(l, ae);
            std.textio.read(l, n);
            std.textio.read(l, m);
            std.textio.read(l, w);
            std.textio.read(l, r);
            std.textio.write(o, id, right, 0);
            std.textio.write(o, string'(" "));
            case ty is
@MAIN@
                when others => report "vf_arrays: unknown type" severity failure;
            end case;
            writeline(fo, o);
            flush(fo);
        end loop;
        std.textio.write(o, string'("END"));
        writeline(fo, o);
        file_close(fo);
        wait;
    end process;

end architecture;
"""

_exe = None


def exe():
    global _exe
    if _exe is None:
        fn = path("vf_arrays.vhd")
        with open(fn, "w") as f:
            f.write(source())
        _exe = vhdl.build("vf_arrays_build", [("vunit_lib", vhdl.STUB), ("en_tb", vhdl.TB_BASE)], [fn], "vf_arrays")
    return _exe


def stimulus(q):
    op = q["op"]
    d = q["x"] if op in ("flatten", "numel") else [q["v"]] if op.startswith("un") else q["got"] + q["expected"]
    n = len(q["x"]) if op in ("flatten", "numel") else q["n"] if op.startswith("un") else len(q["got"])
    m, w = 0, q["w"]
    if op in ("check", "check_c"):
        m = len(q["expected"])
    if op in ("vcheck", "vcheck_c"):
        w, m = len(q["got"][0]), len(q["expected"][0])
    vals = [q["id"], OPS[op], TY[q["ty"]], 3 * q["ar"] + q["el"], n, m, w, q.get("vr", 0)]
    return " ".join(map(str, vals)) + "".join(" !" + x for x in d)


def parse(q, toks):
    op = q["op"]
    if op == "numel":
        return {"n": int(toks[0])}
    if "check" in op:
        return {"failures": int(toks[0]), "who": int(toks[1])}
    if any(t[0] != "!" for t in toks):
        raise ValueError
    if op == "flatten" and len(toks) != 1 or op.startswith("un") and len(toks) != q["n"]:
        raise ValueError
    return {"d": [t[1:] for t in toks]}


def execute(plan, tag="ar"):
    return vhdl.execute(plan, tag, exe=exe(), stimulus=stimulus, parse=parse, reruns=2000)
