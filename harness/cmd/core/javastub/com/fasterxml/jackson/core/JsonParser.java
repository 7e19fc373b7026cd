package com.fasterxml.jackson.core;
import java.io.IOException;
public class JsonParser {
    public final Object node; final com.fasterxml.jackson.databind.ObjectMapper om;
    public JsonParser(Object n, com.fasterxml.jackson.databind.ObjectMapper om) { node = n; this.om = om; }
    public String getText() throws IOException { return node == null ? "null" : node.toString(); }
    public String getValueAsString() throws IOException { return node == null ? null : node.toString(); }
    @SuppressWarnings("unchecked")
    public <T> T readValueAs(Class<T> c) throws IOException { return (T) om.read(node, c, null, null); }
}
