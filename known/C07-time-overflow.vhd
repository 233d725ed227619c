entity t is end entity;
architecture a of t is
begin
  process
    variable x : time := time'high;
    variable y : time := 1 fs;
  begin
    wait for 1 ns;
    x := x + y;
    report "value " & time'image(x);
    wait;
  end process;
end architecture;
