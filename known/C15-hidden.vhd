package pk1 is
  function d return integer;
end package;
package body pk1 is
  function d return integer is begin return 2; end function;
end package body;
entity t is
end entity;
architecture ar of t is
  subtype d is integer;
begin
  process
    type e is (d, x);
    use work.pk1.all;
  begin
    report "R1 " & integer'image(d);
    wait;
  end process;
end architecture;
