package verif;
import java.util.*;
// JSON texts to maps, lists, strings, Num, Boolean, null and back.
public class J {
    public static final class Num { public final String s; Num(String s) { this.s = s; } public String toString() { return s; } }
    private final String s; private int i;
    private J(String s) { this.s = s; }
    public static Object parse(String s) { J j = new J(s); Object o = j.value(); j.ws(); if (j.i < s.length()) throw j.bad("trailing text"); return o; }
    private RuntimeException bad(String m) { return new IllegalArgumentException("JSON: " + m + " at " + i + " of " + s); }
    private void ws() { while (i < s.length() && " \t\r\n".indexOf(s.charAt(i)) >= 0) i++; }
    private Object value() {
        ws();
        if (i >= s.length()) throw bad("no value");
        char c = s.charAt(i);
        if (c == '{') {
            Map<String, Object> m = new LinkedHashMap<>(); i++; ws();
            if (s.charAt(i) == '}') { i++; return m; }
            for (;;) {
                ws(); String k = str(); ws();
                if (s.charAt(i++) != ':') throw bad("colon");
                m.put(k, value()); ws();
                char d = s.charAt(i++);
                if (d == '}') return m;
                if (d != ',') throw bad("comma");
            }
        }
        if (c == '[') {
            List<Object> l = new ArrayList<>(); i++; ws();
            if (s.charAt(i) == ']') { i++; return l; }
            for (;;) {
                l.add(value()); ws();
                char d = s.charAt(i++);
                if (d == ']') return l;
                if (d != ',') throw bad("comma");
            }
        }
        if (c == '"') return str();
        if (s.startsWith("true", i)) { i += 4; return true; }
        if (s.startsWith("false", i)) { i += 5; return false; }
        if (s.startsWith("null", i)) { i += 4; return null; }
        int j = i;
        while (i < s.length() && "+-.eE0123456789".indexOf(s.charAt(i)) >= 0) i++;
        if (i == j) throw bad("value");
        return new Num(s.substring(j, i));
    }
    private String str() {
        if (s.charAt(i++) != '"') throw bad("string");
        StringBuilder b = new StringBuilder();
        for (;;) {
            char c = s.charAt(i++);
            if (c == '"') return b.toString();
            if (c != '\\') { b.append(c); continue; }
            c = s.charAt(i++);
            switch (c) {
            case 'n': b.append('\n'); break;
            case 't': b.append('\t'); break;
            case 'r': b.append('\r'); break;
            case 'b': b.append('\b'); break;
            case 'f': b.append('\f'); break;
            case 'u': b.append((char) Integer.parseInt(s.substring(i, i + 4), 16)); i += 4; break;
            default: b.append(c);
            }
        }
    }
    public static void quote(StringBuilder b, String s) {
        b.append('"');
        for (int i = 0; i < s.length(); i++) {
            char c = s.charAt(i);
            if (c == '"' || c == '\\') b.append('\\').append(c);
            else if (c < 32 || c == 0x7f || c >= 0xd800 && c < 0xe000) b.append(String.format("\\u%04x", (int) c));
            else b.append(c);
        }
        b.append('"');
    }
    // plain trees of maps, lists, strings and numbers
    public static void write(StringBuilder b, Object o) {
        if (o == null || o instanceof Boolean || o instanceof Num || o instanceof Number) b.append(o);
        else if (o instanceof Map) {
            b.append('{'); String sep = "";
            for (Map.Entry<?, ?> e : ((Map<?, ?>) o).entrySet()) { b.append(sep); sep = ","; quote(b, String.valueOf(e.getKey())); b.append(':'); write(b, e.getValue()); }
            b.append('}');
        } else if (o instanceof Iterable) {
            b.append('['); String sep = "";
            for (Object x : (Iterable<?>) o) { b.append(sep); sep = ","; write(b, x); }
            b.append(']');
        } else quote(b, o.toString());
    }
    public static String text(Object o) { StringBuilder b = new StringBuilder(); write(b, o); return b.toString(); }
}
