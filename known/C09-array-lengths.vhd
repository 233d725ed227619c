-- Two values are written, "abc" and "de"; the first one read back should be "abc".
entity t is end entity;
architecture a of t is
    type st is file of string;
begin
    process
        file s : st;
        variable l : integer;
        variable b : string(1 to 10);
    begin
        file_open(s, "y2", write_mode);
        write(s, "abc");
        write(s, "de");
        file_close(s);
        file_open(s, "y2");
        read(s, b, l);
        report integer'image(l) & b(1 to l);
        wait;
    end process;
end architecture;
