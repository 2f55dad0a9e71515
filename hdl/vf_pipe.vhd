-- Instantiates the clocked components with the generics listed in a configuration file, drives all
-- of them with stimuli from files and records their outputs, one line per clock cycle.
library ieee;
    use ieee.std_logic_1164.all;
library std;
    use std.textio.all;
library lib;
    use lib.en_cl_fix_pkg.all;

entity vf_pipe_inst is
    generic(
        kind    : integer;      -- 0: round, 1: saturate, 2: resize
        fa, fr  : FixFormat_t;
        rnd     : FixRound_t;
        sat     : FixSaturate_t;
        reg     : RegisterMode_t;
        mw      : natural;
        fc      : boolean;
        file_in : string;
        file_out : string
    );
end entity;

architecture sim of vf_pipe_inst is
    signal clk, rst, in_valid, out_valid : std_logic := '0';
    signal in_meta, out_meta : std_logic_vector(mw-1 downto 0);
    signal in_data  : std_logic_vector(cl_fix_width(fa)-1 downto 0);
    signal out_data : std_logic_vector(cl_fix_width(fr)-1 downto 0);

    procedure rbit(l : inout line; v : out std_logic) is
        variable c : character;
    begin
        loop
            read(l, c);
            exit when c /= ' ';
        end loop;
        if c = '1' then
            v := '1';
        else
            v := '0';
        end if;
    end procedure;

    procedure wbit(l : inout line; v : std_logic) is
    begin
        if v = '1' then
            write(l, character'('1'));
        elsif v = '0' then
            write(l, character'('0'));
        else
            write(l, character'('X'));
        end if;
    end procedure;
begin

    g_round : if kind = 0 generate
        i_dut : entity lib.en_cl_fix_round
        generic map(in_fmt_g => fa, out_fmt_g => fr, round_g => rnd, reg_mode_g => reg, meta_width_g => mw,
                    fmt_check_g => fc)
        port map(clk => clk, rst => rst, in_valid => in_valid, in_meta => in_meta, in_data => in_data,
                 out_valid => out_valid, out_meta => out_meta, out_data => out_data);
    end generate;

    g_saturate : if kind = 1 generate
        i_dut : entity lib.en_cl_fix_saturate
        generic map(in_fmt_g => fa, out_fmt_g => fr, saturate_g => sat, reg_mode_g => reg, meta_width_g => mw)
        port map(clk => clk, rst => rst, in_valid => in_valid, in_meta => in_meta, in_data => in_data,
                 out_valid => out_valid, out_meta => out_meta, out_data => out_data);
    end generate;

    g_resize : if kind = 2 generate
        i_dut : entity lib.en_cl_fix_resize
        generic map(in_fmt_g => fa, out_fmt_g => fr, round_g => rnd, saturate_g => sat, reg_mode_g => reg,
                    meta_width_g => mw)
        port map(clk => clk, rst => rst, in_valid => in_valid, in_meta => in_meta, in_data => in_data,
                 out_valid => out_valid, out_meta => out_meta, out_data => out_data);
    end generate;

    process
        file fi         : text;
        file fo         : text;
        variable l, o   : line;
        variable b      : std_logic;
    begin
        file_open(fi, file_in, read_mode);
        file_open(fo, file_out, write_mode);
        while not endfile(fi) loop
            -- After the rising edge: next inputs
            wait for 2 ns;
            readline(fi, l);
            rbit(l, b);
            rst <= b;
            rbit(l, b);
            in_valid <= b;
            for i in mw-1 downto 0 loop
                rbit(l, b);
                in_meta(i) <= b;
            end loop;
            for i in in_data'high downto 0 loop
                rbit(l, b);
                in_data(i) <= b;
            end loop;
            wait for 3 ns;
            clk <= '0';
            wait for 4 ns;
            -- Before the next rising edge: outputs of this cycle
            wbit(o, out_valid);
            write(o, character'(' '));
            for i in mw-1 downto 0 loop
                wbit(o, out_meta(i));
            end loop;
            write(o, character'(' '));
            for i in out_data'high downto 0 loop
                wbit(o, out_data(i));
            end loop;
            writeline(fo, o);
            wait for 1 ns;
            clk <= '1';
        end loop;
        write(o, string'("END"));
        writeline(fo, o);
        file_close(fo);
        wait;
    end process;
end architecture;

library std;
    use std.textio.all;
library lib;
    use lib.en_cl_fix_pkg.all;

entity vf_pipe is
    generic(CFG_FILE : string; DIR : string; COUNT : natural);
end entity;

architecture sim of vf_pipe is
    type cfg_t is array(0 to 12) of integer;
    type cfgs_t is array(natural range <>) of cfg_t;

    impure function load return cfgs_t is
        file f      : text;
        variable l  : line;
        variable r  : cfgs_t(0 to COUNT-1);
    begin
        file_open(f, CFG_FILE, read_mode);
        for i in 0 to COUNT-1 loop
            readline(f, l);
            for j in cfg_t'range loop
                read(l, r(i)(j));
            end loop;
        end loop;
        file_close(f);
        return r;
    end function;

    constant CFGS : cfgs_t(0 to COUNT-1) := load;
begin
    g_inst : for i in 0 to COUNT-1 generate
        constant C : cfg_t := CFGS(i);
    begin
        i_inst : entity work.vf_pipe_inst
        generic map(
            kind => C(0), fa => (C(1), C(2), C(3)), fr => (C(4), C(5), C(6)), rnd => FixRound_t'val(C(7)),
            sat => FixSaturate_t'val(C(8)), reg => RegisterMode_t'val(C(9)), mw => C(10), fc => C(11) = 1,
            file_in => DIR & "/" & integer'image(C(12)) & ".in",
            file_out => DIR & "/" & integer'image(C(12)) & ".out");
    end generate;
end architecture;
