-- The configuration binds only the instance in the first iteration to a1; the second one has the default architecture a2.
entity sub is
end entity;
architecture a1 of sub is
begin
    process begin report "a1"; wait; end process;
end architecture;
architecture a2 of sub is
begin
    process begin report "a2"; wait; end process;
end architecture;
entity t is
end entity;
architecture a of t is
    component sub is
    end component;
begin
    g: for i in 0 to 1 generate
        u: sub;
    end generate;
end architecture;
configuration cfg of t is
    for a
        for g(0)
            for u: sub use entity work.sub(a1); end for;
        end for;
    end for;
end configuration;
