package p is
  type ivec is array (natural range <>) of integer;
  function res(x : ivec) return integer;
  subtype rint is res integer;
  function conv(x : integer) return integer;
end package;
package body p is
  function res(x : ivec) return integer is variable r : integer := 0;
  begin
    for i in x'range loop r := r + x(i); end loop; return r + 100 * x'length;
  end;
  function conv(x : integer) return integer is begin return 2 * x; end;
end package body;
use work.p.all;
entity sub2 is port (q, r : in integer); end;
architecture a of sub2 is begin
  process (q, r) begin report "sub2 " & integer'image(q) & " " & integer'image(r); end process;
end;
use work.p.all;
entity sub is port (p : inout integer := 5); end;
architecture a of sub is begin
  process begin p <= 6; wait for 1 ns; p <= 7; wait for 1 ns; p <= 7; wait; end process;
  process (p) begin report "sub " & integer'image(p) ; end process;
  u : entity work.sub2 port map (p, conv(p));
end;
use work.p.all;
entity t is end;
architecture a of t is
  signal s0 : rint := 1;
begin
  u : entity work.sub port map (p => s0);
  process begin s0 <= 10; wait for 2 ns; s0 <= 20; wait; end process;
end;
