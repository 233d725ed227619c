entity t is end;
architecture a of t is
  type ivec is array (integer range <>) of integer;
begin
  process
    subtype s0 is ivec(10 to 3);
    variable x : s0;
    function right (v : ivec) return integer is begin return v'right; end;
  begin
    report "right " & integer'image(right(x));
    wait;
  end process;
end;
