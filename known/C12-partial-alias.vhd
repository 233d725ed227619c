entity u is port (q : in bit); end entity;
architecture a of u is begin process (q) begin assert q = '1' or now = 0 ns; end process; end architecture;
entity t is end entity;
architecture a of t is
  signal s : bit_vector(1 to 3) := "010";
begin
  u1 : entity work.u port map (s(2));
end architecture;
