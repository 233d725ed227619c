entity t is end entity;
architecture a of t is
  function f (x : integer) return integer is
    variable v : natural;
  begin
    v := -x;
    return v;
  end function;
  constant n : integer := integer'value("5");
  constant k : integer := f(n) * (5 * 0);
begin
  process
  begin
    report "value " & integer'image(k);
    wait;
  end process;
end architecture;
