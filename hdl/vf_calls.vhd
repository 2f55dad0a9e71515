-- Executes the calls listed in a text file on en_cl_fix_pkg and writes the outcomes to another one.
-- Every call is made at its own simulation time, so that warnings can be attributed.
library ieee;
    use ieee.std_logic_1164.all;
    use ieee.numeric_std.all;
    use ieee.math_real.all;
library std;
    use std.textio.all;
library lib;
    use lib.en_cl_fix_pkg.all;

entity vf_calls is
    generic(IN_FILE : string; OUT_FILE : string);
end entity;

architecture sim of vf_calls is

    -- Bit string (MSB first) -> vector with one of several index ranges
    function mk(s : string; dir : integer) return std_logic_vector is
        constant s_c    : string(1 to s'length) := s;
        variable dn     : std_logic_vector(s'length-1 downto 0);
        variable up     : std_logic_vector(0 to s'length-1);
        variable off    : std_logic_vector(s'length+2 downto 3);
    begin
        for i in 1 to s'length loop
            case s_c(i) is
                when '1' => dn(s'length-i) := '1';
                when 'X' => dn(s'length-i) := 'X';
                when 'U' => dn(s'length-i) := 'U';
                when 'Z' => dn(s'length-i) := 'Z';
                when 'W' => dn(s'length-i) := 'W';
                when 'L' => dn(s'length-i) := 'L';
                when 'H' => dn(s'length-i) := 'H';
                when '?' => dn(s'length-i) := '-';
                when others => dn(s'length-i) := '0';
            end case;
        end loop;
        up := dn;
        off := dn;
        case dir is
            when 1 => return up;
            when 2 => return off;
            when others => return dn;
        end case;
    end function;

    function str(v : std_logic_vector) return string is
        constant v_c    : std_logic_vector(1 to v'length) := v;
        variable s      : string(1 to v'length);
    begin
        for i in 1 to v'length loop
            case v_c(i) is
                when '0' => s(i) := '0';
                when '1' => s(i) := '1';
                when others => s(i) := 'X';
            end case;
        end loop;
        return s;
    end function;

    -- Next blank-separated token ("-" denotes the empty string)
    procedure token(l : inout line; t : out line) is
        variable c  : character;
        variable ok : boolean;
        variable r  : line;
    begin
        deallocate(t);
        loop
            read(l, c, ok);
            exit when not ok or c /= ' ';
        end loop;
        while ok and c /= ' ' loop
            write(r, c);
            read(l, c, ok);
        end loop;
        if r = null then
            r := new string'("");
        elsif r.all = "-" then
            r := new string'("");
        end if;
        t := r;
    end procedure;

    procedure wreal(l : inout line; x : real) is
        variable m  : real := abs(x);
        variable e  : integer := 0;
        variable hi : integer;
        variable lo : integer;
    begin
        if m > 1.0e300 then
            write(l, string'("inf"));
            return;
        end if;
        if m /= 0.0 then
            while m >= 2.0**53 loop
                m := m / 2.0;
                e := e - 1;
            end loop;
            while m < 2.0**52 loop
                m := m * 2.0;
                e := e + 1;
            end loop;
        end if;
        -- m is an integer below 2**53 (ieee.math_real.floor is exact below 2**30 only)
        hi := integer(floor(m / 2.0**27));
        lo := integer(m - real(hi) * 2.0**27);
        if x < 0.0 then
            write(l, string'("-"));
        else
            write(l, string'("+"));
        end if;
        write(l, ' ');
        write(l, hi);
        write(l, ' ');
        write(l, lo);
        write(l, ' ');
        write(l, e);
    end procedure;

    procedure wstr(l : inout line; s : string) is
    begin
        for i in s'range loop
            write(l, character'pos(s(i)));
            write(l, ' ');
        end loop;
    end procedure;

    procedure wfmt(l : inout line; f : FixFormat_t) is
    begin
        write(l, f.S);
        write(l, ' ');
        write(l, f.I);
        write(l, ' ');
        write(l, f.F);
    end procedure;

    procedure wbits(l : inout line; v : std_logic_vector) is
    begin
        write(l, v'length);
        write(l, ' ');
        write(l, str(v));
    end procedure;

    procedure wbool(l : inout line; b : boolean) is
    begin
        if b then
            write(l, 1);
        else
            write(l, 0);
        end if;
    end procedure;

    function scale(hi, lo, e : integer; neg : boolean) return real is
        variable x : real := real(hi) * 2.0**27 + real(lo);
        variable n : integer := e;
    begin
        while n > 0 loop
            x := x * 2.0;
            n := n - 1;
        end loop;
        while n < 0 loop
            x := x / 2.0;
            n := n + 1;
        end loop;
        if neg then
            return -x;
        end if;
        return x;
    end function;

    type strings_t is array(1 to 12) of string(1 to 2);
    constant CMP : strings_t := ("= ", "!=", "< ", "> ", "<=", ">=", "??", "==", "/=", "=>", "=<", "<>");

    function cmp_str(i : integer) return string is
    begin
        if CMP(i)(2) = ' ' then
            return CMP(i)(1 to 1);
        end if;
        return CMP(i);
    end function;

    -- Character codes separated by '.', as a string with index range first to ...
    function codes(s : string; first : positive) return string is
        constant s_c : string(1 to s'length) := s;
        variable r   : string(first to first + s'length);
        variable n   : natural := 0;
        variable v   : natural := 0;
        variable any : boolean := false;
    begin
        for i in 1 to s'length loop
            if s_c(i) = '.' then
                r(first + n) := character'val(v);
                n := n + 1;
                v := 0;
            else
                v := v * 10 + character'pos(s_c(i)) - character'pos('0');
            end if;
        end loop;
        return r(first to first + n - 1);
    end function;

begin

    process
        file fi             : text;
        file fo             : text;
        variable l, o       : line;
        variable ta, tb     : line;
        variable op         : integer;
        variable id         : integer;
        variable dir        : integer;
        variable dflt       : integer;
        variable fa, fb, fr : FixFormat_t;
        variable rn, sn     : integer;
        variable x1, x2, x3, x4 : integer;
        variable rnd        : FixRound_t;
        variable sat        : FixSaturate_t;
        variable s1         : integer;

        procedure rfmt(f : out FixFormat_t) is
            variable s, i, n : integer;
        begin
            read(l, s);
            read(l, i);
            read(l, n);
            f := (s, i, n);
        end procedure;

    begin
        file_open(fi, IN_FILE, read_mode);
        file_open(fo, OUT_FILE, write_mode);
        while not endfile(fi) loop
            wait for 1 ns;
            readline(fi, l);
            read(l, id);
            read(l, op);
            rfmt(fa);
            rfmt(fb);
            rfmt(fr);
            read(l, rn);
            read(l, sn);
            read(l, dir);
            read(l, dflt);
            read(l, x1);
            read(l, x2);
            read(l, x3);
            read(l, x4);
            rnd := FixRound_t'val(rn);
            sat := FixSaturate_t'val(sn);
            token(l, ta);
            token(l, tb);
            write(o, id);
            write(o, ' ');
            case op is
                when 1 => wbits(o, cl_fix_add(mk(ta.all, dir), fa, mk(tb.all, dir), fb, fr, rnd, sat));
                when 2 => wbits(o, cl_fix_sub(mk(ta.all, dir), fa, mk(tb.all, dir), fb, fr, rnd, sat));
                when 3 =>
                    if x1 = 1 then
                        wbits(o, cl_fix_addsub(mk(ta.all, dir), fa, mk(tb.all, dir), fb, '1', fr, rnd, sat));
                    else
                        wbits(o, cl_fix_addsub(mk(ta.all, dir), fa, mk(tb.all, dir), fb, '0', fr, rnd, sat));
                    end if;
                when 4 => wbits(o, cl_fix_mult(mk(ta.all, dir), fa, mk(tb.all, dir), fb, fr, rnd, sat));
                when 5 => wbits(o, cl_fix_neg(mk(ta.all, dir), fa, fr, rnd, sat));
                when 6 => wbits(o, cl_fix_abs(mk(ta.all, dir), fa, fr, rnd, sat));
                when 7 => wbits(o, cl_fix_shift(mk(ta.all, dir), fa, x1, fr, rnd, sat));
                when 8 => wbits(o, cl_fix_resize(mk(ta.all, dir), fa, fr, rnd, sat));
                when 9 => wbits(o, cl_fix_round(mk(ta.all, dir), fa, fr, rnd));
                when 10 => wbits(o, cl_fix_saturate(mk(ta.all, dir), fa, fr, sat));
                when 11 => wbool(o, cl_fix_in_range(mk(ta.all, dir), fa, fr, rnd));
                when 12 => wbool(o, cl_fix_compare(cmp_str(x1), mk(ta.all, dir), fa, mk(tb.all, dir), fb));
                when 13 => wbool(o, cl_fix_sign(mk(ta.all, dir), fa) = '1');
                when 14 => wbits(o, cl_fix_from_real(scale(x1, x2, x3, x4 = 1), fr, sat));
                when 15 => wreal(o, cl_fix_to_real(mk(ta.all, dir), fa));
                when 16 => wbits(o, cl_fix_from_integer(x1, fr));
                when 17 => write(o, cl_fix_to_integer(mk(ta.all, dir), fa));
                when 18 => wbits(o, cl_fix_max_value(fr));
                when 19 => wbits(o, cl_fix_min_value(fr));
                when 20 => wfmt(o, cl_fix_add_fmt(fa, fb));
                when 21 => wfmt(o, cl_fix_sub_fmt(fa, fb));
                when 22 => wfmt(o, cl_fix_addsub_fmt(fa, fb));
                when 23 => wfmt(o, cl_fix_mult_fmt(fa, fb));
                when 24 => wfmt(o, cl_fix_neg_fmt(fa));
                when 25 => wfmt(o, cl_fix_abs_fmt(fa));
                when 26 =>
                    if dflt = 1 then
                        wfmt(o, cl_fix_shift_fmt(fa, x1));
                    else
                        wfmt(o, cl_fix_shift_fmt(fa, x1, x2));
                    end if;
                when 27 => wfmt(o, cl_fix_round_fmt(fa, x1, rnd));
                when 28 => write(o, cl_fix_width(fa));
                when 29 => write(o, cl_fix_recommended_pipelining(fa, fr, rnd));
                when 30 => write(o, cl_fix_recommended_pipelining(fa, fr, sat));
                when 31 => write(o, cl_fix_recommended_pipelining(fa, fr, rnd, sat));
                when 32 => wfmt(o, choose(x1 = 1, fa, fb));
                when 40 => wstr(o, to_string(fa));
                when 41 => wstr(o, to_string(rnd));
                when 42 => wstr(o, to_string(sat));
                when 43 => wstr(o, to_string(mk(ta.all, dir), fa));
                when 44 => wfmt(o, cl_fix_format_from_string(codes(ta.all, x1)));
                when 45 => write(o, FixRound_t'pos(cl_fix_round_from_string(codes(ta.all, x1))));
                when 46 => write(o, FixSaturate_t'pos(cl_fix_saturate_from_string(codes(ta.all, x1))));
                when others => report "vf_calls: unknown op" severity failure;
            end case;
            writeline(fo, o);
            flush(fo);
        end loop;
        write(o, string'("END"));
        writeline(fo, o);
        file_close(fo);
        wait;
    end process;

end architecture;
