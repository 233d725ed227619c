entity t is end entity;
architecture a of t is
  signal one : integer := 1;
begin
  process
    variable x : time := time'low;
    variable y : time := -1 fs * one;
  begin
    wait for 1 ns;
    x := x rem y;
    report "rem " & time'image(x);
    wait;
  end process;
end architecture;
