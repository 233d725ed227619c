entity t is end entity;
architecture a of t is
  signal clk, a, b, c : bit;
  default clock is clk'event and clk = '1';
begin
  d: assert {a; b[*1 to 2]; c};
  process begin
    a <= '1'; b <= '0'; c <= '0'; wait for 5 ns; clk <= '1'; wait for 3 ns; clk <= '0'; wait for 2 ns;
    a <= '0'; b <= '1'; c <= '0'; wait for 5 ns; clk <= '1'; wait for 3 ns; clk <= '0'; wait for 2 ns;
    a <= '0'; b <= '0'; c <= '1'; wait for 5 ns; clk <= '1'; wait for 3 ns; clk <= '0'; wait for 2 ns;
    a <= '0'; b <= '0'; c <= '0'; wait for 5 ns; clk <= '1'; wait for 3 ns; clk <= '0'; wait for 2 ns;
    wait;
  end process;
end architecture;
