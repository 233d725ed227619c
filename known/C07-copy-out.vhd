entity t is end entity;
architecture a of t is
begin
  process
    subtype s is integer range 0 to 7;
    procedure p (x : out integer) is
    begin
      x := 100;
    end procedure;
    variable v : s := 0;
  begin
    p(v);
    report "value " & integer'image(v);
    wait;
  end process;
end architecture;
