entity t is end entity;
architecture a of t is
begin
  process
    variable x : integer := integer'low;
    variable y : integer := -1;
    variable b : boolean;
  begin
    wait for 1 ns;
    b := abs x > 0;
    report "abs " & boolean'image(b);
    b := x / y > 0;
    report "div " & boolean'image(b);
    wait;
  end process;
end architecture;
