entity t is end entity;
architecture a of t is
begin
  process
    subtype s is integer range 0 to 7;
    type r is record x, y : s; end record;
    variable v : r := (0, 0);
    variable i : integer := 100;
  begin
    wait for 1 ns;
    v := (i, 1);
    report "value " & integer'image(v.x);
    wait;
  end process;
end architecture;
