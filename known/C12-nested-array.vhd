entity t is end entity;
architecture a of t is
  type rv is array (1 to 2) of real;
  type rvv is array (1 to 2) of rv;
  signal s : rvv := ((1.0, 2.0), (3.0, 4.0));
begin
end architecture;
