package verif;
import com.fasterxml.jackson.databind.ObjectMapper;
import java.lang.annotation.Annotation;
import java.lang.reflect.*;
import java.nio.charset.StandardCharsets;
import java.util.*;
import javax.ws.rs.*;
import javax.ws.rs.core.Response;
import javax.ws.rs.ext.*;
// An in-process HTTP exchange between generated clients and generated JAX-RS resources.
public class Wire {
    public static final ObjectMapper om = new ObjectMapper();
    public static List<Object> seen = new ArrayList<>();
    public static Object resource;
    public static List<ParamConverterProvider> converters = new ArrayList<>();

    static final String UNRESERVED = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-._~";
    static String esc(String s, String keep) {
        StringBuilder b = new StringBuilder();
        for (byte x : s.getBytes(StandardCharsets.UTF_8)) {
            char c = (char) (x & 255);
            if (c < 128 && (UNRESERVED.indexOf(c) >= 0 || keep.indexOf(c) >= 0)) b.append(c); else b.append(String.format("%%%02X", (int) c));
        }
        return b.toString();
    }
    public static String pathEscape(String s, boolean slash) { return esc(s, "!$&'()*+,;=:@" + (slash ? "" : "/")); }
    // queryParam takes URI templates and keeps escapes that are already there
    public static String queryEscape(String s) {
        if (s.indexOf('{') >= 0) throw new IllegalStateException("template variable in query parameter: " + s);
        StringBuilder b = new StringBuilder();
        for (int i = 0; i < s.length(); i++)
            if (s.startsWith("%", i) && s.substring(i).matches("(?s)%[0-9A-Fa-f]{2}.*")) { b.append(s, i, i + 3); i += 2; }
            else { int n = Character.charCount(s.codePointAt(i)); b.append(esc(s.substring(i, i + n), "!$'()*,;:@/?")); i += n - 1; }
        return b.toString();
    }
    public static String unescape(String s, boolean plus) {
        java.io.ByteArrayOutputStream b = new java.io.ByteArrayOutputStream();
        byte[] u = s.getBytes(StandardCharsets.UTF_8);
        for (int i = 0; i < u.length; i++) {
            if (u[i] == '%') { b.write(Integer.parseInt(new String(u, i + 1, 2, StandardCharsets.US_ASCII), 16)); i += 2; }
            else if (plus && u[i] == '+') b.write(' ');
            else b.write(u[i]);
        }
        return new String(b.toByteArray(), StandardCharsets.UTF_8);
    }
    public static String headerText(Object o) { return o instanceof Date ? "date" : o.toString(); }

    public static String writeBody(Object o) {
        if (o == null) return "";
        if (o instanceof javax.ws.rs.core.GenericEntity) o = ((javax.ws.rs.core.GenericEntity<?>) o).getEntity();
        if (o instanceof String) return (String) o;
        if (o instanceof byte[]) return new String((byte[]) o, StandardCharsets.ISO_8859_1);
        try { return om.writeValueAsString(o); } catch (Exception e) { throw new RuntimeException(e.toString()); }
    }
    public static Object readBody(String s, Type t) {
        if (t == String.class) return s;
        if (t == byte[].class) return s.getBytes(StandardCharsets.ISO_8859_1);
        if (s == null || s.isEmpty()) return null;
        try { return om.read(J.parse(s), t, null, null); } catch (Exception e) { throw new RuntimeException(e.toString()); }
    }

    public static Response send(String method, String url, Map<String, List<Object>> headers, String body) {
        String u = url.replaceFirst("^http://[^/]*", "");
        int q = u.indexOf('?');
        Map<String, List<String>> h = new LinkedHashMap<>();
        for (Map.Entry<String, List<Object>> e : headers.entrySet()) { List<String> l = new ArrayList<>(); for (Object o : e.getValue()) l.add(headerText(o)); h.put(canonical(e.getKey()), l); }
        Map<String, Object> m = new LinkedHashMap<>();
        m.put("Method", method); m.put("Path", unescapeSegments(q < 0 ? u : u.substring(0, q))); m.put("Query", q < 0 ? "" : u.substring(q + 1)); m.put("Body", body); m.put("Header", h);
        seen.add(m);
        // resources without a base path of their own are deployed under the base path of the client's target
        boolean own = segs(resource.getClass().getAnnotation(Path.class).value()).contains("base");
        return serve(method, own || !u.startsWith("/base/") ? u : u.substring(5), h, body);
    }
    static String unescapeSegments(String p) { // a slash inside a segment shows up as another segment
        return unescape(p, false);
    }
    static String canonical(String h) {
        StringBuilder b = new StringBuilder(); boolean up = true;
        for (char c : h.toCharArray()) { b.append(up ? Character.toUpperCase(c) : Character.toLowerCase(c)); up = c == '-'; }
        return b.toString();
    }

    static class Match { Method m; String http; Map<String, String> vars; int literal; }

    public static Response serve(String method, String url, Map<String, List<String>> headers, String body) {
        int q = url.indexOf('?');
        String path = q < 0 ? url : url.substring(0, q), query = q < 0 ? "" : url.substring(q + 1);
        Class<?> c = resource.getClass();
        String root = c.getAnnotation(Path.class).value();
        List<Match> found = new ArrayList<>();
        for (Method m : c.getMethods()) {
            String http = null;
            for (Annotation a : m.getAnnotations()) { HttpMethod hm = a.annotationType().getAnnotation(HttpMethod.class); if (hm != null) http = hm.value(); }
            if (http == null) continue;
            Path p = m.getAnnotation(Path.class);
            Match x = match(root, p == null ? "" : p.value(), path);
            if (x == null) continue;
            x.m = m; x.http = http; found.add(x);
        }
        if (found.isEmpty()) return answer(Response.status(404).build());
        int best = -1;
        for (Match x : found) best = Math.max(best, x.literal);
        Match use = null, get = null;
        for (Match x : found) if (x.literal == best) { if (x.http.equals(method)) { if (use != null) throw new RuntimeException("ambiguous resource methods " + use.m + " and " + x.m); use = x; } if (x.http.equals("GET")) get = x; }
        if (use == null && method.equals("HEAD")) use = get;
        if (use == null) return answer(Response.status(405).build());
        try {
            Object[] args = new Object[use.m.getParameterCount()];
            Parameter[] ps = use.m.getParameters();
            for (int i = 0; i < ps.length; i++) args[i] = argument(ps[i], use.vars, query, headers, body);
            use.m.setAccessible(true);
            return answer((Response) use.m.invoke(resource, args));
        } catch (InvocationTargetException e) {
            if (e.getCause() instanceof WebApplicationException) return answer(((WebApplicationException) e.getCause()).getResponse());
            return answer(Response.status(500).entity("uncaught " + e.getCause()).build());
        } catch (WebApplicationException e) {
            return answer(e.getResponse());
        } catch (ReflectiveOperationException e) {
            throw new RuntimeException(e);
        }
    }
    static Response answer(Response r) {
        return Response.received(r.getStatus(), r.headers, r.getStatus() == 204 || r.getStatus() == 304 ? "" : writeBody(r.getEntity()));
    }
    static List<String> segs(String s) { List<String> l = new ArrayList<>(); for (String x : s.split("/")) if (!x.isEmpty()) l.add(x); return l; }
    static Match match(String root, String sub, String path) {
        List<String> t = segs(root); t.addAll(segs(sub));
        List<String> g = Arrays.asList(path.startsWith("/") ? path.substring(1).split("/", -1) : path.split("/", -1));
        if (t.size() != g.size()) return null;
        Match m = new Match(); m.vars = new HashMap<>();
        for (int i = 0; i < t.size(); i++) {
            String x = t.get(i), y = g.get(i);
            if (x.startsWith("{") && x.endsWith("}")) { if (y.isEmpty()) return null; m.vars.put(x.substring(1, x.length() - 1).trim(), unescape(y, false)); }
            else if (!x.equals(unescape(y, false))) return null;
            else m.literal += x.length();
        }
        return m;
    }
    static Object argument(Parameter p, Map<String, String> vars, String query, Map<String, List<String>> headers, String body) {
        String v = null; boolean param = true;
        PathParam pp = p.getAnnotation(PathParam.class); QueryParam qp = p.getAnnotation(QueryParam.class); HeaderParam hp = p.getAnnotation(HeaderParam.class);
        if (pp != null) v = vars.get(pp.value());
        else if (qp != null) {
            for (String kv : query.split("&")) { int e = kv.indexOf('='); if (unescape(e < 0 ? kv : kv.substring(0, e), true).equals(qp.value()) && !kv.isEmpty()) { v = e < 0 ? "" : unescape(kv.substring(e + 1), true); break; } }
        } else if (hp != null) {
            for (Map.Entry<String, List<String>> e : headers.entrySet()) if (e.getKey().equalsIgnoreCase(hp.value())) v = String.join(",", e.getValue());
        } else param = false;
        if (!param) return readBody(body, p.getParameterizedType());
        DefaultValue dv = p.getAnnotation(DefaultValue.class);
        if (v == null && dv != null) v = dv.value();
        try { return convert(v, p.getType(), p.getParameterizedType(), p.getAnnotations()); } catch (InvocationTargetException | IllegalArgumentException e) { throw new WebApplicationException(hp != null ? 400 : 404); } catch (ReflectiveOperationException e) { throw new RuntimeException("no conversion to " + p.getType()); }
    }
    static Object convert(String v, Class<?> c, Type t, Annotation[] as) throws ReflectiveOperationException {
        for (ParamConverterProvider p : converters) { ParamConverter<?> k = p.getConverter(c, t, as); if (k != null) return k.fromString(v); }
        if (c == String.class) return v;
        if (c.isPrimitive()) {
            if (v == null || v.isEmpty()) v = c == boolean.class ? "false" : "0";
            if (c == boolean.class) return Boolean.valueOf(v);
            if (c == int.class) return Integer.valueOf(v);
            if (c == long.class) return Long.valueOf(v);
            if (c == short.class) return Short.valueOf(v);
            if (c == byte.class) return Byte.valueOf(v);
            if (c == float.class) return Float.valueOf(v);
            if (c == double.class) return Double.valueOf(v);
        }
        if (v == null) return null;
        if (v.isEmpty() && Number.class.isAssignableFrom(c)) return null;
        String[] names = c.isEnum() ? new String[]{"fromString", "valueOf"} : new String[]{"valueOf", "fromString"};
        try { Constructor<?> k = c.getConstructor(String.class); return k.newInstance(v); } catch (NoSuchMethodException e) { }
        for (String n : names) try { Method m = c.getMethod(n, String.class); m.setAccessible(true); return m.invoke(null, v); } catch (NoSuchMethodException e) { }
        throw new NoSuchMethodException("no conversion to " + c);
    }
}
