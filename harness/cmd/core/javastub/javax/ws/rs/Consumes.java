package javax.ws.rs;
import java.lang.annotation.*;
@Retention(RetentionPolicy.RUNTIME)
@Target({ElementType.TYPE, ElementType.METHOD})
public @interface Consumes {
    String[] value() default "*/*";
}
