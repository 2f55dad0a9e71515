-- Stands in for VUnit's check library: failures are counted instead of stopping the simulation.
library ieee;
    use ieee.std_logic_1164.all;
    use ieee.numeric_std.all;

package checker_pkg is
    type checker_t is record
        id : integer;
    end record;
    constant other_checker : checker_t := (id => 1);

    type counter_t is protected
        procedure fail(who : integer);
        procedure reset;
        impure function failures return natural;
        impure function checker return integer;
    end protected;
    shared variable counter : counter_t;
end package;

package body checker_pkg is
    type counter_t is protected body
        variable n : natural := 0;
        variable w : integer := -1;
        procedure fail(who : integer) is
        begin
            if n > 0 and w /= who then
                w := -2;                -- several checkers
            else
                w := who;
            end if;
            n := n + 1;
        end procedure;
        procedure reset is
        begin
            n := 0;
            w := -1;
        end procedure;
        impure function failures return natural is
        begin
            return n;
        end function;
        impure function checker return integer is
        begin
            return w;
        end function;
    end protected body;
end package body;

library ieee;
    use ieee.std_logic_1164.all;
    use ieee.numeric_std.all;
library work;
    use work.checker_pkg.all;

package check_pkg is
    procedure check_equal(got, expected : std_ulogic_vector; msg : string := "");
    procedure check_equal(got, expected : unsigned; msg : string := "");
    procedure check_equal(got, expected : signed; msg : string := "");
    procedure check_equal(got, expected : integer; msg : string := "");
    procedure check_equal(checker : checker_t; got, expected : std_ulogic_vector; msg : string := "");
    procedure check_equal(checker : checker_t; got, expected : unsigned; msg : string := "");
    procedure check_equal(checker : checker_t; got, expected : signed; msg : string := "");
    procedure check_equal(checker : checker_t; got, expected : integer; msg : string := "");
end package;

package body check_pkg is
    procedure judge(ok : boolean; who : integer) is
    begin
        if not ok then
            counter.fail(who);
        end if;
    end procedure;
    procedure check_equal(got, expected : std_ulogic_vector; msg : string := "") is
    begin
        judge(got = expected, 0);
    end procedure;
    procedure check_equal(got, expected : unsigned; msg : string := "") is
    begin
        judge(got = expected, 0);
    end procedure;
    procedure check_equal(got, expected : signed; msg : string := "") is
    begin
        judge(got = expected, 0);
    end procedure;
    procedure check_equal(got, expected : integer; msg : string := "") is
    begin
        judge(got = expected, 0);
    end procedure;
    procedure check_equal(checker : checker_t; got, expected : std_ulogic_vector; msg : string := "") is
    begin
        judge(got = expected, checker.id);
    end procedure;
    procedure check_equal(checker : checker_t; got, expected : unsigned; msg : string := "") is
    begin
        judge(got = expected, checker.id);
    end procedure;
    procedure check_equal(checker : checker_t; got, expected : signed; msg : string := "") is
    begin
        judge(got = expected, checker.id);
    end procedure;
    procedure check_equal(checker : checker_t; got, expected : integer; msg : string := "") is
    begin
        judge(got = expected, checker.id);
    end procedure;
end package body;

context vunit_context is
    library vunit_lib;
        use vunit_lib.check_pkg.all;
        use vunit_lib.checker_pkg.all;
end context;
