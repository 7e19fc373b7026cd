package com.fasterxml.jackson.core;
import java.io.IOException;
public class JsonGenerator {
    final StringBuilder b; final com.fasterxml.jackson.databind.ObjectMapper om;
    public JsonGenerator(StringBuilder b, com.fasterxml.jackson.databind.ObjectMapper om) { this.b = b; this.om = om; }
    public void writeString(String s) throws IOException { if (s == null) b.append("null"); else verif.J.quote(b, s); }
    public void writeObject(Object o) throws IOException { om.write(b, o); }
    public void writeNull() throws IOException { b.append("null"); }
    public void writeNumber(String s) throws IOException { b.append(s); }
    public void writeNumber(long s) throws IOException { b.append(s); }
    public void writeNumber(java.math.BigDecimal s) throws IOException { b.append(s); }
}
