package pk1 is
  type e is (x, d);
end package;
use work.pk1.all;
entity t is
end entity;
architecture ar of t is
  function d return e is begin return x; end function;
begin
  process
    use work.pk1.all;
  begin
    report "R1 " & integer'image(e'pos(d));
    wait;
  end process;
end architecture;
