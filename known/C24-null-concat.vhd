entity t is end;
architecture a of t is
  type ivec is array (natural range <>) of integer;
begin
  process
    subtype s0 is ivec(1 to 0);
    variable x, y : s0;
    function len (v : ivec) return natural is begin return v'length; end;
  begin
    report "length " & integer'image(len(ivec'(x & y)));
    wait;
  end process;
end;
