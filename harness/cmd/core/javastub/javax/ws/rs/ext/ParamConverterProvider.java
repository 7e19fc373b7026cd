package javax.ws.rs.ext;
public interface ParamConverterProvider { <T> ParamConverter<T> getConverter(Class<T> rawType, java.lang.reflect.Type genericType, java.lang.annotation.Annotation[] annotations); }
