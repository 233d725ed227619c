-- The generate statement is removed when the architecture is analysed and then the configuration cannot name it.
entity sub is
end entity;
architecture a1 of sub is
begin
end architecture;
entity t is
end entity;
architecture a of t is
    component sub is
    end component;
begin
    g: if 1 = 2 generate
        u: sub;
    end generate;
end architecture;
configuration cfg of t is
    for a
        for g
            for u: sub use entity work.sub(a1); end for;
        end for;
    end for;
end configuration;
