package pk1 is
  constant b : integer := 1;
end package;
package pk2 is
  function b return integer;
end package;
package body pk2 is
  function b return integer is begin return 2; end function;
end package body;
use work.pk1.all;
use work.pk2.all;
entity t is
end entity;
architecture ar of t is
begin
  process begin
    report "R1 " & integer'image(b);
    wait;
  end process;
end architecture;
