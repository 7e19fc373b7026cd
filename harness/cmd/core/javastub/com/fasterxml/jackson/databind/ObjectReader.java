package com.fasterxml.jackson.databind;
import java.io.IOException;
public class ObjectReader {
    final ObjectMapper om; final java.lang.reflect.Type t;
    ObjectReader(ObjectMapper om, java.lang.reflect.Type t) { this.om = om; this.t = t; }
    @SuppressWarnings("unchecked")
    public <T> T readValue(String s) throws IOException { return (T) om.read(verif.J.parse(s), t, null, null); }
}
