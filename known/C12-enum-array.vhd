entity t is end entity;
architecture a of t is
  type bv is array (1 to 2) of boolean;
  signal s : bv := (true, false);
begin
end architecture;
