entity t is end entity;
architecture a of t is begin end architecture;
