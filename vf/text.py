"""Executes text-file operations of the testbench library (lib/en_tb, tb/util) with GHDL."""
import os
from . import vhdl
from .common import MachineryError, path

MODES = ["bin", "dec", "hex"]
# name, element type, array type, signed (None: said per call), conversion of a std_logic_vector, conversion back
TYPES = [
    ("bits_signed", "ieee.numeric_bit.signed", "SignedBitArray_t", 1, "ieee.numeric_bit.signed(to_bitvector({}))",
     "to_stdlogicvector(bit_vector({}))"),
    ("bits_unsigned", "ieee.numeric_bit.unsigned", "UnsignedBitArray_t", 0, "ieee.numeric_bit.unsigned(to_bitvector({}))",
     "to_stdlogicvector(bit_vector({}))"),
    ("signed", "ieee.numeric_std.signed", "SignedArray_t", 1, "ieee.numeric_std.signed({})", "std_logic_vector({})"),
    ("unsigned", "ieee.numeric_std.unsigned", "UnsignedArray_t", 0, "ieee.numeric_std.unsigned({})", "std_logic_vector({})"),
    ("slv", "std_logic_vector", "SlvArray_t", None, "{}", "{}"),
    ("bv", "bit_vector", "BitVectorArray_t", None, "to_bitvector({})", "to_stdlogicvector({})"),
    ("sulv", "std_ulogic_vector", "SulvArray_t", None, "{}", "{}"),
    ("integer", "integer", "integer_vector", 1, "ieee.numeric_std.to_integer(ieee.numeric_std.signed({}))",
     "std_logic_vector(ieee.numeric_std.to_signed({}, 32))"),
    ("std_logic", "std_logic", None, 0, "{}(0)", "one({})"),
    ("bit", "bit", None, 0, "to_bit({}(0))", "one(to_stdulogic({}))"),
    ("fix", "std_logic_vector", "SlvArray_t", None, "{}", "{}"),
]
TY = {t[0]: i for i, t in enumerate(TYPES)}
OPS = {"write_file": 1, "read_file": 2, "write_seq": 3, "read_seq": 4, "write_line": 5, "read_line": 6, "sizes": 7,
       "write_fmts": 8, "read_fmts": 9, "read_fmt_seq": 10, "write_fmt_seq": 11, "read_fmt_line": 12}


def sgn_arg(i):
    t = TYPES[i]
    return "" if t[3] is not None else ("fmt, " if t[0] == "fix" else "sg, ")


def case(arms):
    return "case ty is\n" + "\n".join(f"when {i} => {c}" for i, c in arms) + "\nwhen others => report \"type\" severity failure;\nend case;"


def source():
    """VHDL text of the harness."""
    o = []
    for i, (name, ty, arr, sg, to, back) in enumerate(TYPES):
        fix = name == "fix"
        p = "cl_fix_" if fix else ""
        s = sgn_arg(i)
        scalar = name in ("integer", "std_logic", "bit")
        sub = ty if scalar else ty + "(w-1 downto 0)"
        if arr:
            el = "" if scalar else "(0 to n-1)(w-1 downto 0)"
            for d, rng in enumerate(["(0 to n-1)", "(3 to n+2)"]):
                el = "" if scalar else "(w-1 downto 0)" if d == 0 else "(w+1 downto 2)"
                o.append(f"""
    procedure wf{d}_{i}(fn : string; header : string; n, w : natural; fmt : FixFormat_t; sg : Signedness_t; mode : text_data_mode_t; dflt : boolean) is
        variable d : {arr}{rng}{el};
    begin
        for i in d'range loop
            d(i) := {to.format('get(w)')};
        end loop;
        if dflt and header'length = 0 then
            {p}write_file(fn, d{', ' + s[:-2] if s else ''});
        elsif dflt then
            {p}write_file(fn, d{', ' + s[:-2] if s else ''}, header => header);
        else
            {p}write_file(fn, d, {s}mode, header);
        end if;
    end procedure;""".replace("header => header", "Header => header"))
            args = f"fn, {'fmt' if fix else ('' if scalar else 'w, ') + s}".rstrip(", ")
            o.append(f"""
    procedure rf_{i}(fn : string; w, skip : natural; fmt : FixFormat_t; sg : Signedness_t; mode : text_data_mode_t; dflt : boolean; o : inout line) is
        impure function go return {arr} is
        begin
            if dflt then
                return {p}read_file({args});
            end if;
            return {p}read_file({args}, mode, skip);
        end function;
        constant d : {arr} := go;
    begin
        write(o, d'length, right, 0);
        for i in d'range loop
            put(o, {back.format('d(i)')});
        end loop;
    end procedure;""")
        if name != "sulv":
            nb = "" if name == "integer" else "w, "
            fargs = f"f, {'fmt, ' if fix else (s if s else '') + nb}"
            if name in ("std_logic", "bit"):
                fargs = "f, sg, w, "
            pargs = f"f, x, {s}"
            proc = (f"""
        variable x : {sub};
    begin
        if dflt then
            read({pargs.rstrip(', ')}, skip_before => skip, close_after => close);
        else
            read({pargs}mode, skip, close);
        end if;
        put(o, {back.format('x')});
    end procedure;""")
            func = (f"""
        impure function go return {ty} is
        begin
            if dflt then
                return {p}read({fargs.rstrip(', ')}, {'SkipBefore' if fix else 'skip_before'} => skip, {'CloseAfter' if fix else 'close_after'} => close);
            end if;
            return {p}read({fargs}mode, skip, close);
        end function;
        constant x : {ty} := go;
    begin
        put(o, {back.format('x')});
    end procedure;""")
            head = "(file f : text; w, skip : natural; close : boolean; fmt : FixFormat_t; sg : Signedness_t; mode : text_data_mode_t; dflt : boolean; o : inout line) is"
            o.append(f"\n    procedure rp_{i}{head}" + (func if fix else proc))
            o.append(f"\n    procedure rx_{i}{head}" + func)
            o.append(f"""
    procedure rl_{i}(r : inout line; w : natural; fmt : FixFormat_t; sg : Signedness_t; mode : text_data_mode_t; dflt : boolean; o : inout line) is
        variable x : {sub};
    begin
        if dflt and {'false' if name == 'integer' else 'true'} then
            {p}read(r, x, {s if s else ''}{'ascii_dec' if name in ('integer', 'std_logic', 'bit') else ''}""".rstrip().rstrip(",") + f""");
        else
            {p}read(r, x, {s}mode);
        end if;
        put(o, {back.format('x')});
    end procedure;""")
            if name not in ("std_logic", "bit"):
                lx = to.format("x")
                o.append(f"""
    procedure wl_{i}(r : inout line; x : std_logic_vector; fmt : FixFormat_t; sg : Signedness_t; mode : text_data_mode_t; dflt : boolean) is
    begin
        if dflt and {'false' if name == 'integer' else 'true'} then
            {p}write(r, {lx}, {s}{'ascii_dec' if name == 'integer' else ''}""".rstrip().rstrip(",") + f""");
        else
            {p}write(r, {lx}, {s}mode);
        end if;
    end procedure;""")
                if name != "integer":
                    o.append(f"""
    procedure ws_{i}(file f : text; x : std_logic_vector; fmt : FixFormat_t; sg : Signedness_t; mode : text_data_mode_t; dflt : boolean) is
    begin
        if dflt then
            {p}write(f, {lx}, {s}""".rstrip().rstrip(",") + f""");
        else
            {p}write(f, {lx}, {s}mode);
        end if;
    end procedure;""")
    arr = [i for i, t in enumerate(TYPES) if t[2]]
    val = [i for i, t in enumerate(TYPES) if t[0] != "sulv"]
    lin = [i for i in val if TYPES[i][0] not in ("std_logic", "bit")]
    seq = [i for i in lin if TYPES[i][0] != "integer"]
    wfarm = case((i, f"if dir = 0 then wf0_{i}(fn.all, hd, n, w, fmt, sg, mode, dflt); else wf1_{i}(fn.all, hd, n, w, fmt, sg, mode, dflt); end if;") for i in arr)
    rfarm = case((i, f"rf_{i}(fn.all, w, skip, fmt, sg, mode, dflt, o);") for i in arr)
    wsarm = case((i, f"ws_{i}(f, get(w), fmt, sg, mode, dflt);") for i in seq)
    rsarm = case((i, f"if dir = 0 then rp_{i}(f, w, skip, close, fmt, sg, mode, dflt, o); else rx_{i}(f, w, skip, close, fmt, sg, mode, dflt, o); end if;") for i in val)
    wlarm = case((i, f"wl_{i}(r, get(w), fmt, sg, mode, dflt);") for i in lin)
    rlarm = case((i, f"rl_{i}(r, w, fmt, sg, mode, dflt, o);") for i in val)
    return TEMPLATE.replace("@PROCS@", "\n".join(o)).replace("@WF@", wfarm).replace("@RF@", rfarm).replace("@WS@", wsarm) \
        .replace("@RS@", rsarm).replace("@WL@", wlarm).replace("@RL@", rlarm)


TEMPLATE = """-- Generated by vf/text.py
library ieee;
    use ieee.std_logic_1164.all;
library std;
    use std.textio.all;
library en_tb;
    use en_tb.en_tb_base_pkg.all;
    use en_tb.en_tb_fileio_text_pkg.all;
library lib;
    use lib.en_cl_fix_pkg.all;
    use lib.en_cl_fix_fileio_pkg.all;

entity vf_text is
    generic(IN_FILE : string; OUT_FILE : string);
end entity;

architecture sim of vf_text is

    function one(x : std_ulogic) return std_logic_vector is
        variable v : std_logic_vector(0 downto 0);
    begin
        v(0) := x;
        return v;
    end function;

    procedure token(l : inout line; t : inout line) is
        variable c  : character;
        variable ok : boolean;
        variable r  : line;
    begin
        deallocate(t);
        loop
            std.textio.read(l, c, ok);
            exit when not ok or c /= ' ';
        end loop;
        while ok and c /= ' ' loop
            std.textio.write(r, c);
            std.textio.read(l, c, ok);
        end loop;
        if r = null or r.all = "-" then
            deallocate(r);
            r := new string'("");
        end if;
        t := r;
    end procedure;

    -- Next number of the command
    procedure num(l : inout line; x : out integer) is
        variable good : boolean;
    begin
        std.textio.read(l, x, good);
        assert good report "vf_text: bad command" severity failure;
    end procedure;

    -- Next token as a vector of w bits
    impure function get_f(t : string; w : natural) return std_logic_vector is
        variable v : std_logic_vector(w-1 downto 0);
    begin
        assert t'length = w report "vf_text: bad data" severity failure;
        for i in 1 to w loop
            if t(i) = '1' then
                v(w-i) := '1';
            else
                v(w-i) := '0';
            end if;
        end loop;
        return v;
    end function;

    procedure put(o : inout line; x : std_logic_vector) is
        constant x_c : std_logic_vector(1 to x'length) := x;
    begin
        std.textio.write(o, string'(" "));
        for i in x_c'range loop
            case x_c(i) is
                when '0' => std.textio.write(o, character'('0'));
                when '1' => std.textio.write(o, character'('1'));
                when others => std.textio.write(o, character'('X'));
            end case;
        end loop;
    end procedure;

    function codes(s : string) return string is
        constant s_c : string(1 to s'length) := s;
        variable r   : string(1 to s'length + 1);
        variable n   : natural := 0;
        variable v   : natural := 0;
    begin
        for i in 1 to s'length loop
            if s_c(i) = '.' then
                n := n + 1;
                r(n) := character'val(v);
                v := 0;
            else
                v := v * 10 + character'pos(s_c(i)) - character'pos('0');
            end if;
        end loop;
        return r(1 to n);
    end function;

begin

    process
        file fi             : text;
        file fo             : text;
        file f              : text;
        variable st         : file_open_status;
        variable l, o, fn, t, r : line;
        variable id, op, ty, m, sgn, w, frac, skip, n, dir, b, c : integer;
        variable dflt, close : boolean;
        variable fmt        : FixFormat_t;
        variable sg         : Signedness_t;
        variable mode       : text_data_mode_t;

        impure function get(w : natural) return std_logic_vector is
        begin
            token(l, t);
            return get_f(t.all, w);
        end function;

        procedure rfmt(f : out FixFormat_t) is
            variable s, i, n : integer;
        begin
            num(l, s);
            num(l, i);
            num(l, n);
            f := (s, i, n);
        end procedure;

        procedure wfmt(f : FixFormat_t) is
        begin
            std.textio.write(o, string'(" "));
            std.textio.write(o, f.S, right, 0);
            std.textio.write(o, string'(" "));
            std.textio.write(o, f.I, right, 0);
            std.textio.write(o, string'(" "));
            std.textio.write(o, f.F, right, 0);
        end procedure;

        -- type mode signed width frac dflt
        procedure params is
        begin
            num(l, ty);
            num(l, m);
            num(l, sgn);
            num(l, w);
            num(l, frac);
            num(l, b);
            dflt := b = 1;
            mode := text_data_mode_t'val(m);
            if sgn = 1 then
                sg := Signed_s;
            else
                sg := Unsigned_s;
            end if;
            fmt := (sgn, w - sgn - frac, frac);
        end procedure;

        @PROCS@

        procedure do_wfmts(n : natural) is
            variable fs : FixFormatArray_t(0 to n-1);
        begin
            for i in fs'range loop
                rfmt(fs(i));
            end loop;
            cl_fix_write_format_file(fn.all, fs);
        end procedure;

        procedure do_rfmts(skip : natural; dflt : boolean) is
            impure function go return FixFormatArray_t is
            begin
                if dflt then
                    return cl_fix_read_format_file(fn.all);
                end if;
                return cl_fix_read_format_file(fn.all, skip);
            end function;
            constant fs : FixFormatArray_t := go;
        begin
            std.textio.write(o, fs'length, right, 0);
            for i in fs'range loop
                wfmt(fs(i));
            end loop;
        end procedure;

        procedure do_wf(hd : string) is
        begin
            @WF@
        end procedure;

    begin
        file_open(fi, IN_FILE, read_mode);
        file_open(fo, OUT_FILE, write_mode);
        while not endfile(fi) loop
            wait for 1 ns;
            readline(fi, l);
            num(l, id);
            num(l, op);
            std.textio.write(o, id, right, 0);
            std.textio.write(o, string'(" "));
            case op is
                when 1 =>
                    params;
                    num(l, dir);
                    num(l, n);
                    token(l, fn);
                    token(l, r);
                    do_wf(codes(r.all));
                    std.textio.write(o, string'("ok"));
                when 2 =>
                    params;
                    num(l, skip);
                    token(l, fn);
                    @RF@
                when 3 =>
                    num(l, n);
                    token(l, fn);
                    file_open(f, fn.all, write_mode);
                    for k in 1 to n loop
                        params;
                        @WS@
                    end loop;
                    file_close(f);
                    std.textio.write(o, string'("ok"));
                when 4 =>
                    num(l, n);
                    token(l, fn);
                    file_open(f, fn.all, read_mode);
                    for k in 1 to n loop
                        params;
                        num(l, dir);
                        num(l, skip);
                        num(l, c);
                        close := c = 1;
                        @RS@
                        if close then
                            -- a file that is still open cannot be opened again
                            file_open(st, f, fn.all, read_mode);
                            if st /= open_ok then
                                std.textio.write(o, string'(" open"));
                                file_close(f);
                                file_open(f, fn.all, read_mode);
                            else
                                std.textio.write(o, string'(" closed"));
                            end if;
                        end if;
                    end loop;
                    file_close(f);
                when 5 =>
                    num(l, n);
                    token(l, r);
                    if r.all'length = 0 then
                        deallocate(r);
                    else
                        r := new string'(codes(r.all));
                    end if;
                    for k in 1 to n loop
                        token(l, t);
                        if t.all'length > 0 then
                            std.textio.write(r, codes(t.all));
                        end if;
                        params;
                        @WL@
                    end loop;
                    for i in r.all'range loop
                        std.textio.write(o, character'pos(r.all(i)), right, 0);
                        std.textio.write(o, string'(" "));
                    end loop;
                    deallocate(r);
                when 6 =>
                    num(l, n);
                    token(l, r);
                    r := new string'(codes(r.all));
                    for k in 1 to n loop
                        params;
                        @RL@
                    end loop;
                    deallocate(r);
                when 7 =>
                    num(l, m);
                    num(l, skip);
                    num(l, b);
                    token(l, fn);
                    std.textio.write(o, get_file_size_lines(fn.all), right, 0);
                    std.textio.write(o, string'(" "));
                    if b = 1 then
                        std.textio.write(o, get_file_size_columns(fn.all), right, 0);
                    else
                        std.textio.write(o, get_file_size_columns(fn.all, skip, text_data_mode_t'val(m)), right, 0);
                    end if;
                when 8 =>
                    num(l, n);
                    token(l, fn);
                    do_wfmts(n);
                    std.textio.write(o, string'("ok"));
                when 9 =>
                    num(l, skip);
                    num(l, b);
                    token(l, fn);
                    do_rfmts(skip, b = 1);
                when 10 =>
                    num(l, n);
                    token(l, fn);
                    file_open(f, fn.all, read_mode);
                    for k in 1 to n loop
                        num(l, skip);
                        num(l, c);
                        close := c = 1;
                        wfmt(cl_fix_read_format(f, skip, close));
                        if close then
                            file_open(st, f, fn.all, read_mode);
                            if st /= open_ok then
                                std.textio.write(o, string'(" open"));
                                file_close(f);
                                file_open(f, fn.all, read_mode);
                            else
                                std.textio.write(o, string'(" closed"));
                            end if;
                        end if;
                    end loop;
                    file_close(f);
                when 11 =>
                    num(l, n);
                    token(l, fn);
                    file_open(f, fn.all, write_mode);
                    for k in 1 to n loop
                        rfmt(fmt);
                        cl_fix_write_format(f, fmt);
                    end loop;
                    file_close(f);
                    std.textio.write(o, string'("ok"));
                when 12 =>
                    token(l, r);
                    r := new string'(codes(r.all));
                    cl_fix_read_format(r, fmt);
                    wfmt(fmt);
                    deallocate(r);
                when others => report "vf_text: unknown op" severity failure;
            end case;
            writeline(fo, o);
            flush(fo);
        end loop;
        std.textio.write(o, string'("END"));
        writeline(fo, o);
        file_close(fo);
        wait;
    end process;

end architecture;
"""


_exe = None


def exe():
    global _exe
    if _exe is None:
        fn = path("vf_text.vhd")
        with open(fn, "w") as f:
            f.write(source())
        _exe = vhdl.build("vf_text_build", [("vunit_lib", vhdl.STUB), ("en_tb", vhdl.TB_LIB),
                                            ("lib", vhdl.FIX_LIB + vhdl.FIX_IO)], [fn], "vf_text")
    return _exe


def codes(s):
    return "".join("%d." % ord(c) for c in s) or "-"


def params(i):
    return [TY[i["ty"]], MODES.index(i["mode"]), i["sgn"], i["w"], i.get("F", 0), int(bool(i.get("dflt")))]


def stimulus(q):
    op = q["op"]
    b = [q["id"], OPS[op]]
    if op == "write_file":
        b += params(q) + [q["dir"], len(q["data"]), q["fn"], codes(q["header"])] + [vhdl.bits(v, q["w"]) for v in q["data"]]
    elif op == "read_file":
        b += params(q) + [q["skip"], q["fn"]]
    elif op == "write_seq":
        b += [len(q["items"]), q["fn"]]
        for i in q["items"]:
            b += params(i) + [vhdl.bits(i["v"], i["w"])]
    elif op == "read_seq":
        b += [len(q["items"]), q["fn"]]
        for i in q["items"]:
            b += params(i) + [i["func"], i["skip"], i["close"]]
    elif op == "write_line":
        b += [len(q["items"]), codes(q["prefix"])]
        for i in q["items"]:
            b += [codes(i["sep"])] + params(i) + [vhdl.bits(i["v"], i["w"])]
    elif op == "read_line":
        b += [len(q["items"]), codes(q["row"])]
        for i in q["items"]:
            b += params(i)
    elif op == "sizes":
        b += [MODES.index(q["mode"]), q["skip"], int(bool(q.get("dflt"))), q["fn"]]
    elif op in ("write_fmts", "write_fmt_seq"):
        b += [len(q["fmts"]), q["fn"]] + [x for f in q["fmts"] for x in f]
    elif op == "read_fmts":
        b += [q["skip"], int(bool(q.get("dflt"))), q["fn"]]
    elif op == "read_fmt_seq":
        b += [len(q["items"]), q["fn"]]
        for i in q["items"]:
            b += [i["skip"], i["close"]]
    elif op == "read_fmt_line":
        b += [codes(q["row"])]
    else:
        raise MachineryError(op)
    return " ".join(map(str, b))


def parse(q, toks):
    """toks of the line after the id -> outcome fields."""
    op = q["op"]
    if op in ("write_file", "write_seq", "write_fmts", "write_fmt_seq"):
        if toks != ["ok"]:
            raise ValueError
        return {}
    if op == "read_file":
        if len(toks) != int(toks[0]) + 1:
            raise ValueError
        return {"bits": toks[1:]}
    if op in ("read_seq", "read_fmt_seq"):
        r = {"bits": [], "closed": []}
        t = list(toks)
        for i in q["items"]:
            if op == "read_seq":
                r["bits"].append(t.pop(0))
            else:
                r["bits"].append([int(t.pop(0)) for _ in range(3)])
            r["closed"].append({"closed": 1, "open": 0}[t.pop(0)] if i["close"] else 0)
        return r
    if op == "write_line":
        return {"row": [int(t) for t in toks]}
    if op == "read_line":
        return {"bits": toks}
    if op == "sizes":
        return {"rows": int(toks[0]), "cols": int(toks[1])}
    if op == "read_fmts":
        v = [int(t) for t in toks[1:]]
        if len(v) != 3 * int(toks[0]):
            raise ValueError
        return {"bits": [v[3 * i:3 * i + 3] for i in range(int(toks[0]))]}
    if op == "read_fmt_line":
        return {"bits": [[int(t) for t in toks]]}
    raise MachineryError(op)


def execute(plan, tag="tx"):
    return vhdl.execute(plan, tag, exe=exe(), stimulus=stimulus, parse=parse)


def lines_of(fn):
    """Contents of a file as a list of lines of character codes (None if there is no such file)."""
    if not os.path.exists(fn):
        return None
    with open(fn, "rb") as f:
        t = f.read().split(b"\n")
    if t[-1] == b"":
        t.pop()
    return [list(x) for x in t]
